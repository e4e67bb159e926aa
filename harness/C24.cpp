#include "ceworld.hpp"
#include <cstdlib>
#include <fstream>
#include <sys/wait.h>
using namespace model;
using pbt::Case;
using pbt::cat;
static std::string slurp(const std::string& p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
static bool gen_any(Case& c, Input& in, Files& f, std::string& kind) { GeomOpt g; return gen_any(c, in, f, kind, g); }
static void finite(Case& c, const std::vector<Entry>& E) {
  for (auto& e : E) for (size_t i = 0; i < e.mean.size(); i++) {
    c.check(std::isfinite(e.mean[i]) && std::isfinite(e.sd[i]), cat(e.name, " bin ", i, ": mean ", e.raw_mean[i], ", deviation ", e.raw_sd[i]));
    c.check(e.sd[i] >= 0, cat(e.name, " bin ", i, ": deviation ", e.raw_sd[i]));
    if (!e.sens) c.check(e.mean[i] >= 0, cat(e.name, " bin ", i, ": mean ", e.raw_mean[i]));
  }
}
// the program built with AddressSanitizer and UBSan, twice
static void sanitized(Case& c) {
  const char* dir = getenv("PBT_ASAN");
  c.check(dir, "harness: PBT_ASAN not set");
  Input in; Files f; std::string kind;
  if (!gen_any(c, in, f, kind)) c.discard();
  if (c.chance(1, 2)) in.seed = c.seed() % 2000000000 + 1;
  in.histories = c.chance(1, 6) ? c.range(1, 3) : c.range(20, 400);
  in.threads = c.chance(1, 2) ? 1 : c.range(2, 5);
  if (!in.perturbations.empty()) in.threads = 1;
  in.schema = pbt::repo() + "/test/minimc.xsd";
  c.note(in.xml());
  std::string d = pbt::scratch(), text[2];
  { std::ofstream(d + "/in.xml") << in.xml(); }
  for (int k = 0; k < 2; k++) {
    std::string log = d + "/log";
    std::string cmd = cat("cd ", d, " && env ASAN_OPTIONS=detect_leaks=0:exitcode=77 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1 timeout 60 ", dir, "/runminimc in.xml >/dev/null 2>", log);
    int st = system(cmd.c_str());
    c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 124), "the run does not end");
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, cat("the instrumented program ended with status ", st, ": ", slurp(log).substr(0, 2500)));
    text[k] = slurp(d + "/in.out");
    unlink((d + "/in.out").c_str());
    if (c.chance(1, 2)) break;
  }
  auto nl = text[0].find('\n');
  c.check(nl != std::string::npos, "the program wrote no report");
  c.check(text[1].empty() || text[0] == text[1], "repeating the run changes its report");
  auto E = parse_report(text[0].substr(nl + 1));
  finite(c, E);
  bool scored = false; for (auto& e : E) for (double m : e.mean) scored |= m != 0;
  c.evals(in.histories);
  c.label(kind); c.label(in.tracking.value_or("default tracking"));
  c.nontrivial(scored);
}
// particle balance: how often histories leave, and what remains
static void balance(Case& c) {
  Input in; Files f;
  bool ce = c.chance(1, 3), scatter_only = c.chance(1, 2);
  GeomOpt g;
  if (!ce) {
    ProbOpt o; o.fission = false; o.photons = c.chance(1, 4); o.coincident = false; o.voids = c.chance(1, 3); o.thick = scatter_only ? 2 : 4; o.zeros = !scatter_only;
    if (!gen_problem(c, in, o, &g)) c.discard();
    if (scatter_only) for (auto& n : in.nuclides) for (auto* d : {&n.neutron, &n.photon}) if (*d) { (*d)->capture.clear(); if ((*d)->scatter.empty()) (*d)->scatter = gen_vec(c, in.groups * in.groups, 1. / in.groups, false); }
  } else {
    double T = c.uniform(150, 1200), E0 = kBoltzmann * T * c.logreal(0.1, 300);
    auto ns = gen_ce_nuclides(c, false, false, T);
    if (scatter_only) for (auto& n : ns) { n.neutron->capture.reset(); n.neutron->total.reset(); if (!n.neutron->scatter) { CeOpt o; o.lo = kBoltzmann * T * 1e-3; o.hi = o.lo * 1e7; n.neutron->scatter = Eval{gen_xs(c, gen_axis(c, 3, o.lo, o.hi, true), 1), T}; } }
    in.nuclides_xml = ce_xml(ns, f);
    if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
    bool lin = c.chance(1, 2);
    gen_temperatures(c, in, T * 0.5, T * 1.5, lin, c.chance(1, 3));
    in.tracking = lin || c.chance(1, 2) ? "cell delta" : "surface";
  }
  bool inner_void = false, ball = in.surfaces[0].kind == Surf::sphere;
  std::vector<int> shell = ball ? std::vector<int>{0} : std::vector<int>{0, 1, 2};
  auto outside = [&](const Region& r) { for (auto& s : r.sides) for (int k : shell) if (s.first == k && s.second == (k == 0 && !ball ? -1 : +1)) return true; return false; };
  // void regions other than the outside
  for (auto& r : in.regions) if (r.is_void && !outside(r)) inner_void = true;
  in.tallies.clear(); in.perturbations.clear();
  for (int k : shell) { Tally t{"outer" + std::to_string(k), in.surfaces[k].name}; if (c.chance(1, 2)) { t.cosine = gen_cos_axis(c); t.ref = gen_dir(c); } in.tallies.push_back(t); }
  in.histories = c.range(50, c.thorough ? 3000 : 600); in.threads = c.range(1, 4);
  in.seed = c.seed() % 2000000000 + 1;
  c.note(in.xml());
  std::string err; double left = 0; std::vector<Entry> E;
  err = pbt::in_child([&] {
    Solved s = solve(in, true);
    for (auto& t : s.sum) for (double v : t) left += v;
    auto R = s.entries();
    finite(c, R);
    double N = in.histories;
    c.check(left <= N, cat(left, " particles left in ", N, " histories without multiplication"));
    if (scatter_only && !inner_void) c.check(left == N, cat(left, " of ", N, " particles left although nothing absorbs"));
    // a history scores at most once, so the deviation of every bin follows
    for (size_t t = 0; t < R.size(); t++) for (size_t i = 0; i < R[t].mean.size(); i++) {
      double m = s.sum[t][i] / N, sd = std::sqrt(m * (1 - m) / N);
      c.check(std::fabs(R[t].sd[i] - sd) <= 1e-5 * sd + 1e-9 || std::fabs(R[t].sd[i] - std::sqrt(m * (1 - m) / (N - 1))) <= 1e-5 * sd + 1e-9, cat(R[t].name, " bin ", i, ": deviation ", R[t].raw_sd[i], " for a mean of ", m, " over histories that score at most once"));
    }
    Solved again = solve(in, true);
    c.check(again.text == s.text, "repeating the run changes its report");
  }, 60);
  c.check(err.empty(), err);
  c.evals(2 * in.histories);
  c.label(ce ? "continuous energy" : "multigroup"); if (scatter_only && !inner_void) c.label("nothing absorbs");
  c.nontrivial(true);
}
// extreme but valid values of every scale parameter
static void extremes(Case& c) {
  Input in; GeomOpt g;
  ProbOpt o; o.photons = c.chance(1, 4); o.sens = c.chance(1, 2);
  if (!gen_problem(c, in, o, &g)) c.discard();
  double k = std::pow(10., c.range(-6, 6));
  in.pos = in.pos * k;
  for (auto& s : in.surfaces) { s.r *= k; s.c = s.c * k; }
  for (auto& m : in.materials) { double th = c.below(4) == 0 ? std::pow(10., c.range(-12, 1)) : 1; m.aden *= th / k; }
  // cross sections and densities that only matter as products
  double q = std::pow(10., c.range(-20, 20));
  for (auto& n : in.nuclides) for (auto* d : {&n.neutron, &n.photon}) if (*d) for (auto* v : {&(*d)->capture, &(*d)->scatter, &(*d)->fis_xs}) for (auto& x : *v) x *= q;
  for (auto& m : in.materials) { m.aden /= q; double s = std::pow(10., c.range(-15, 15)); for (auto& n : m.nuclides) n.second *= s; }
  // directions of any length
  if (c.chance(1, 2)) { V3 d = gen_dir(c) * std::pow(10., c.range(-100, 100)); in.direction_xml = dir_xml(d, c.chance(1, 2) ? "constant" : "isotropic-flux"); }
  for (auto& t : in.tallies) if (t.cosine.kind) t.ref = t.ref * std::pow(10., c.range(-100, 100));
  in.histories = c.range(1, 300); in.threads = c.range(1, 4);
  static const long long seeds[] = {1, 2, 2147483646, 2147483647, 2147483648LL, 4294967295LL, 1000000007};
  in.seed = seeds[c.below(7)];
  in.chunksize = c.chance(1, 2) ? 1000000000 : 1;
  c.note(in.xml());
  std::string err = pbt::in_child([&] { Solved s = solve(in, true); finite(c, s.entries()); }, 60);
  c.check(err.empty(), err);
  c.evals(in.histories);
  c.nontrivial(true);
}
PBT_MAIN((pbt::Property{"C24",
  "sanitized: complete multigroup, continuous-energy and thermal-scattering inputs (fission, photons, voids, own temperatures, linear fields, binned tallies, sensitivities, both tracking methods, several threads) through the program built with AddressSanitizer and UBSan, half of them twice: ends with success, reports finite non-negative means and deviations, identically each time. balance: inputs without multiplication; departures through the outer surfaces never exceed one per history and equal it when nothing absorbs; deviations are those of a score of zero or one. extremes: lengths over 12, cross sections over 40, densities over 30 decades, direction vectors of any length, the largest seeds. Non-trivial when something crosses a tally (sanitized), always otherwise.",
  {"Source groups exist, sources lie in a material region, every material interacts with every transported type, temperatures are positive, thermal scattering tables cannot exhaust the resampling limit.", "UBSan covers the checks GCC implements, plus float-to-integer conversions."},
  {{"sanitized", sanitized, 800, 6000, true, 150}, {"balance", balance, 1200, 8000, true, 120}, {"extremes", extremes, 1200, 8000, true, 120}}}))
