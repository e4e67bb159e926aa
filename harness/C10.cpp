#include "ceworld.hpp"
#include <filesystem>
#include <fstream>
#include <sys/wait.h>
using namespace model;
using pbt::Case;
using pbt::cat;
namespace fs = std::filesystem;
static std::string slurp(const fs::path& p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string sci(double v) { char b[64]; snprintf(b, sizeof b, "%.6e", v); return b; }
// same number to the printed precision
static bool printed(const std::string& s, double v) { double x = strtod(s.c_str(), nullptr); return s == sci(v) || std::fabs(x - v) <= 0.51e-6 * std::fabs(v) + 1e-300; }
static void unusual_names(Case& c, Input& in) {
  static const char* n[] = {"mean", "std dev", "a b", "x,y", "cosine", "t::u", "energy", "0", "none", "total", "T_1"};
  for (auto& t : in.tallies) if (c.chance(1, 4)) { std::string s = n[c.below(11)]; bool taken = false; for (auto& u : in.tallies) taken |= u.name == s; if (!taken) t.name = s; }
}
// one report in text form against what the run scored
static void judge(Case& c, const Input& in, const std::string& text, const Solved& mem) {
  auto E = parse_report(text);
  size_t k = 0;
  for (size_t t = 0; t < in.tallies.size(); t++) {
    auto& y = in.tallies[t];
    c.check(k < E.size() && !E[k].sens, cat("the report ends before tally ", y.name));
    auto& e = E[k++];
    c.check(e.name == y.name, cat("tally ", t, " of the report is ", e.name, ", of the input ", y.name));
    for (int ax = 0; ax < 2; ax++) {
      const Axis& a = ax ? y.energy : y.cosine;
      auto& got = ax ? e.energy : e.cosine; bool has = ax ? e.has_en : e.has_cos;
      c.check(has == (a.kind != Axis::none), cat(y.name, ": ", ax ? "energy" : "cosine", has ? " boundaries that the input does not have" : " boundaries missing"));
      auto want = a.edges();
      c.check(got.size() == want.size(), cat(y.name, ": ", got.size(), ax ? " energy" : " cosine", " boundaries, the input has ", want.size()));
      double span = 0; for (Ld w : want) span = std::max(span, (double)std::fabs(w));
      for (size_t i = 0; i < want.size(); i++) c.check(std::fabs(got[i] - (double)want[i]) <= 0.51e-6 * std::fabs((double)want[i]) + 1e-14 * span, cat(y.name, ": boundary ", i, " printed as ", got[i], " is ", (double)want[i]));
    }
    c.check(e.mean.size() == y.size() && e.sd.size() == y.size(), cat(y.name, ": ", e.mean.size(), " means and ", e.sd.size(), " deviations for ", y.size(), " bins"));
    for (size_t i = 0; i < y.size(); i++) c.check(printed(e.raw_mean[i], mem.sum[t][i] / in.histories), cat(y.name, " bin ", i, ": mean ", e.raw_mean[i], ", the run scored ", mem.sum[t][i], " in ", in.histories, " histories"));
    for (size_t s = 0; s < y.sens.size(); s++) {
      c.check(k < E.size() && E[k].sens, cat(y.name, ": sensitivity ", s, " missing"));
      auto& q = E[k++];
      c.check(q.name == y.name + "::" + y.sens[s], cat("sensitivity ", s, " of ", y.name, " is named ", q.name));
      c.check(q.mean.size() == y.size() && q.sd.size() == y.size(), cat(q.name, ": ", q.mean.size(), " means and ", q.sd.size(), " deviations for ", y.size(), " bins"));
      for (size_t i = 0; i < y.size(); i++) if (mem.sum[t][i] == 0) c.check(q.mean[i] == 0 && q.sd[i] == 0, cat(q.name, " bin ", i, ": not zero although nothing crossed"));
    }
  }
  c.check(k == E.size(), "the report has more results than the input asks for");
}
// axes that have little to do with the problem are reported all the same
static Axis wild_axis(Case& c) {
  Axis a; int n = c.range(1, c.chance(1, 8) ? 200 : 8);
  switch (c.below(3)) {
  case 0: a.kind = Axis::linspace; a.bins = n; a.min = c.sign() * c.logreal(1e-12, 1e12); a.max = a.min + std::fabs(a.min) * c.logreal(1e-3, 1e6); break;
  case 1: a.kind = Axis::logspace; a.bins = n; a.min = c.uniform(-30, 30); a.max = a.min + c.uniform(0.5, 30); if (c.chance(1, 2)) a.base = c.uniform(1.1, 12); break;
  default: { a.kind = Axis::boundaries; std::set<double> s; for (int i = 0; i < n; i++) s.insert(c.chance(1, 4) ? c.range(-5, 5) : c.sign() * c.logreal(1e-30, 1e30)); a.bounds.assign(s.begin(), s.end()); }
  }
  return a;
}
static bool gen(Case& c, Input& in, Files& f) {
  ProbOpt o; o.photons = c.chance(1, 5); o.sens = true; o.max_tallies = 5;
  GeomOpt g; std::string kind;
  if (!(c.chance(1, 3) ? gen_any(c, in, f, kind, g) : gen_problem(c, in, o))) return false;
  if (!kind.empty()) c.label(kind);
  for (auto& t : in.tallies) { if (c.chance(1, 6)) t.energy = wild_axis(c); if (c.chance(1, 8)) { t.cosine = wild_axis(c); t.ref = gen_dir(c); } }
  for (auto& t : in.tallies) if (t.sens.size() > 1 && c.chance(1, 2)) std::swap(t.sens.front(), t.sens.back());
  unusual_names(c, in);
  in.histories = c.chance(1, 5) ? 1 : c.range(2, 150);
  in.threads = c.range(1, 4);
  in.seed = c.seed() % 2000000000 + 1;
  return true;
}
static void program(Case& c) {
  Input in; Files f;
  if (!gen(c, in, f)) c.discard();
  in.threads = c.chance(1, 2) ? 1 : in.threads;
  if (!in.perturbations.empty()) in.threads = 1; // sums in a different order may print differently
  in.schema = pbt::repo() + "/test/minimc.xsd";
  c.note(in.xml());
  static const char* names[] = {"in.xml", "case.1.xml", "noext", "sub/in.xml", "x.y/in.txt", "in.out.xml"};
  fs::path dir = fs::path(pbt::scratch()) / "run", file = names[c.below(6)], out = file;
  out.replace_extension(".out");
  fs::remove_all(dir);
  fs::create_directories((dir / file).parent_path());
  { std::ofstream(dir / file) << in.xml(); }
  bool stale = c.chance(1, 3);
  if (stale) std::ofstream(dir / out) << std::string(200000, 'x');
  bool absolute = c.chance(1, 3);
  std::string cmd = cat("cd '", dir.string(), "' && timeout 60 ", pbt::bindir(), "/runminimc '", absolute ? (dir / file).string() : file.string(), "' > ../log 2>&1");
  int st = system(cmd.c_str());
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program failed: " + slurp(dir / "../log").substr(0, 1500));
  c.check(fs::exists(dir / out), cat("no ", out.string(), " was written for ", file.string()));
  std::set<std::string> files; for (auto& e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) files.insert(fs::relative(e.path(), dir).string());
  c.check(files == std::set<std::string>{file.string(), out.string()}, "files other than the report were written");
  c.check(slurp(dir / file) == in.xml(), "the input was modified");
  std::string text = slurp(dir / out);
  auto nl = text.find('\n');
  c.check(nl != std::string::npos && text.substr(0, nl) == std::to_string(in.histories), cat("the report starts with \"", text.substr(0, std::min<size_t>(nl, 40)), "\", not with the ", in.histories, " histories"));
  std::string rest = text.substr(nl + 1);
  Solved mem = solve(in, true);
  judge(c, in, rest, mem);
  auto a = parse_report(rest), b = mem.entries();
  c.check(a.size() == b.size(), "the program's report and the results in memory have different lengths");
  for (size_t k = 0; k < a.size(); k++) c.check(a[k].name == b[k].name && a[k].raw_mean == b[k].raw_mean && a[k].raw_sd == b[k].raw_sd, cat(a[k].name, ": the program's report differs from the results in memory"));
  c.evals(2 * in.histories);
  bool scored = false; for (auto& t : mem.sum) for (double y : t) scored |= y > 0;
  if (stale) c.label("stale report");
  if (!in.perturbations.empty()) c.label("sensitivities");
  c.nontrivial(scored && in.tallies.size() > 1);
}
static std::unique_ptr<EstimatorSet> results(const Input& in) {
  Doc d(in.xml());
  FixedSource f(d.root);
  return std::make_unique<EstimatorSet>(f.Solve());
}
static std::vector<std::vector<double>> sums(const Input& in, const EstimatorSet& e) {
  std::vector<std::vector<double>> v;
  for (auto& t : in.tallies) { auto& x = e.FindEstimatorByName(t.name); v.emplace_back(); for (size_t i = 0; i < t.size(); i++) v.back().push_back(x.GetScore(i, 1.0)); }
  return v;
}
// squared scores recovered from a report
static double squares(double mean, double sd, double N) { return sd * sd * N * N + mean * mean * N; }
static void merge(Case& c) {
  Input a; Files f;
  if (!gen(c, a, f)) c.discard();
  Input b = a;
  b.seed = *a.seed + c.range(1, 1000000);
  // another order of tallies, at times more of them
  for (size_t i = b.tallies.size(); i > 1; i--) std::swap(b.tallies[i - 1], b.tallies[c.below(i)]);
  bool more = c.chance(1, 4);
  if (more) { Tally t = b.tallies[0]; t.name = "zz"; t.sens.clear(); t.cosine = gen_cos_axis(c); b.tallies.insert(b.tallies.begin() + c.below(b.tallies.size() + 1), t); }
  bool missing = b.tallies.size() > 1 && c.chance(1, 5);
  for (auto& t : b.tallies) if (t.sens.size() > 1 && c.chance(1, 2)) std::swap(t.sens.front(), t.sens.back());
  if (missing) { size_t k = c.below(b.tallies.size()); if (b.tallies[k].name == "zz") missing = false; else b.tallies.erase(b.tallies.begin() + k); }
  c.note(a.xml(), "merged with\n", b.xml());
  auto A = results(a), B = results(b);
  std::string ta = A->to_string(), tb = B->to_string();
  judge(c, a, ta, Solved{sums(a, *A), ta});
  EstimatorSet keep = *A, other = *B;
  c.check(keep.to_string() == ta && other.to_string() == tb, "a copy reports something else than the original");
  if (missing) {
    std::string msg;
    try { keep += *B; } catch (std::exception& e) { msg = e.what(); }
    c.check(!msg.empty(), "merging results that lack a tally was accepted");
    c.check(A->to_string() == ta && B->to_string() == tb, "a failed merge into a copy changed the original");
    c.label("missing tally");
    c.nontrivial();
    return;
  }
  EstimatorSet copy = *A;
  auto& ret = (*A += *B);
  c.check(&ret == A.get(), "merging must return the set merged into");
  c.check(copy.to_string() == ta && keep.to_string() == ta, "merging into the original changed a copy");
  c.check(B->to_string() == tb, "merging changed the set merged from");
  std::string tm = A->to_string();
  auto sa = sums(a, copy), sb = sums(a, *B), sm = sums(a, *A);
  for (size_t t = 0; t < sa.size(); t++) for (size_t i = 0; i < sa[t].size(); i++) c.check(sm[t][i] == sa[t][i] + sb[t][i], cat(a.tallies[t].name, " bin ", i, ": ", sa[t][i], " merged with ", sb[t][i], " gives ", sm[t][i]));
  judge(c, a, tm, Solved{sm, tm});
  auto ea = parse_report(ta), eb = parse_report(tb), em = parse_report(tm);
  double N = a.histories; bool scored = false;
  for (size_t k = 0; k < em.size(); k++) {
    size_t j = 0; while (j < eb.size() && eb[j].name != em[k].name) j++;
    c.check(j < eb.size(), "harness: no partner for " + em[k].name);
    for (size_t i = 0; i < em[k].mean.size(); i++) {
      double m1 = ea[k].mean[i], m2 = eb[j].mean[i], m = m1 + m2;
      c.check(std::fabs(em[k].mean[i] - m) <= 1.1e-6 * (std::fabs(m1) + std::fabs(m2)), cat(em[k].name, " bin ", i, ": means ", m1, " and ", m2, " merge to ", em[k].mean[i]));
      double q1 = squares(m1, ea[k].sd[i], N), q2 = squares(m2, eb[j].sd[i], N), q = q1 + q2, got = squares(em[k].mean[i], em[k].sd[i], N);
      // a report never prints a negative variance
      if (q - m * m * N > 1e-5 * q) c.check(std::fabs(got - q) <= 2e-5 * q, cat(em[k].name, " bin ", i, ": squared scores ", q1, " and ", q2, " merge to ", got));
      else c.check(em[k].sd[i] * em[k].sd[i] * N * N <= 4e-5 * q, cat(em[k].name, " bin ", i, ": squared scores ", q1, " and ", q2, " with mean ", m, " leave deviation ", em[k].sd[i]));
      scored |= m1 != 0 && m2 != 0;
    }
  }
  // the other way round (when B has the same tallies)
  if (!more) {
    *B += copy;
    auto s = sums(a, *B);
    for (size_t t = 0; t < s.size(); t++) for (size_t i = 0; i < s[t].size(); i++) c.check(s[t][i] == sm[t][i], cat(a.tallies[t].name, " bin ", i, ": merging in the other order gives ", s[t][i], " instead of ", sm[t][i]));
    c.check(other.to_string() == tb, "merging into the original changed a copy");
  }
  // merging a copy changes the copy only
  copy += other;
  c.check(keep.to_string() == ta, "two copies share scores");
  c.check(copy.to_string() == tm, "merging into a copy differs from merging into the original");
  c.evals(2 * a.histories);
  c.nontrivial(scored);
}
PBT_MAIN((pbt::Property{"C10",
  "program: generated inputs (multigroup and continuous-energy; 1-5 tallies with every kind of axis, up to 200 bins and far outside what can be scored at times; unusual names, sensitivities, 1-4 threads) run by the command-line program under several file names, absolute and relative, over a stale report at times: the report's first line, order, names, boundaries, number of means and deviations, and agreement with the results in memory, and that nothing else is written. merge: results of two runs whose tallies are listed in different order merged: sums exactly, means and squared scores to printed precision, both ways round; copies unaffected and equal; a missing tally refused. Non-trivial when several tallies score (program), when a bin scored in both runs (merge).",
  {"Squared scores are recovered from the reported deviation (seven digits)."},
  {{"program", program, 2400, 9600}, {"merge", merge, 8000, 32000}}}))
