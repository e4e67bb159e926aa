#include "ceworld.hpp"
#include <cstdlib>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace model;
using pbt::Case;
using pbt::cat;
// some problem, multigroup or continuous
static bool gen_any(Case& c, Input& in, Files& f, bool* ce) { GeomOpt g; std::string kind; bool ok = gen_any(c, in, f, kind, g); *ce = kind != "multigroup"; return ok; }
// identical counts; sums and deviations up to the rounding of a reordered sum
static std::string differ(const Input& in, const Solved& a, const Solved& b) {
  for (size_t t = 0; t < a.sum.size(); t++) for (size_t i = 0; i < a.sum[t].size(); i++) if (a.sum[t][i] != b.sum[t][i]) return cat(in.tallies[t].name, " bin ", i, ": ", a.sum[t][i], " and ", b.sum[t][i]);
  auto x = a.entries(), y = b.entries();
  if (x.size() != y.size()) return "a different number of results";
  for (size_t k = 0; k < x.size(); k++) {
    if (x[k].name != y[k].name || x[k].mean.size() != y[k].mean.size()) return "results in a different order";
    double top = 0; for (double m : x[k].mean) top = std::max(top, std::fabs(m)); for (double m : x[k].sd) top = std::max(top, m * std::sqrt((double)in.histories));
    for (size_t i = 0; i < x[k].mean.size(); i++) for (int w = 0; w < 2; w++) {
      double p = w ? x[k].sd[i] : x[k].mean[i], q = w ? y[k].sd[i] : y[k].mean[i];
      double tol = x[k].sens ? 3e-6 * std::fabs(p) + (w ? 1e-6 : 1e-9) * top : 0;
      if (!(std::fabs(p - q) <= tol) && !(std::isnan(p) && std::isnan(q))) return cat(x[k].name, w ? " standard deviation" : " mean", " of bin ", i, ": ", w ? x[k].raw_sd[i] : x[k].raw_mean[i], " and ", w ? y[k].raw_sd[i] : y[k].raw_mean[i]);
    }
  }
  return "";
}
static void threads(Case& c) {
  Input in; Files f; bool ce;
  if (!gen_any(c, in, f, &ce)) c.discard();
  in.seed = c.seed() % 2000000000 + 1;
  int kind = c.below(4);
  in.histories = kind == 0 ? c.range(1, 12) : kind == 1 ? c.range(1, 300) : c.range(200, c.thorough ? 4000 : 1200);
  in.threads = 1;
  std::vector<int> n; int k = c.range(1, 3);
  for (int i = 0; i < k; i++) n.push_back(c.chance(1, 3) ? (int)in.histories + c.range(1, 8) : c.chance(1, 4) ? 1 : c.range(2, 16));
  for (auto& x : n) x = std::min(x, 64);
  c.note(in.xml());
  Solved a = solve(in, true);
  double scored = 0; for (auto& t : a.sum) for (double y : t) scored += y;
  bool many = false;
  for (int x : n) {
    Input b = in; b.threads = x;
    if (c.chance(1, 3)) b.chunksize = c.range(1, 500);
    Solved r = solve(b, true);
    std::string d = differ(in, a, r);
    c.check(d.empty(), cat("1 and ", x, " threads disagree for ", in.histories, " histories: ", d));
    many |= x > 1;
    if (x > in.histories) c.label("more threads than histories");
    c.evals(in.histories);
  }
  c.label(ce ? "continuous energy" : "multigroup");
  c.nontrivial(many && scored > 0 && in.histories > 1);
}
// every history scores exactly one and nothing else happens: short histories
// that workers compete for
static Input shooter(Case& c) {
  Input in;
  Surf s; s.kind = Surf::sphere; s.name = "o"; s.r = c.logreal(0.1, 10);
  in.surfaces = {s};
  in.nuclides = {absorber("a", 1)}; in.materials = {{"m", 1e-30, {{"a", 1}}}};
  in.regions = {{false, "c", "m", std::nullopt, {{0, -1}}}, {true, "", "", std::nullopt, {{0, +1}}}};
  in.tallies = {Tally{"t", "o"}};
  if (c.chance(1, 2)) { Tally t{"u", "o"}; t.cosine = gen_cos_axis(c); in.tallies.push_back(t); }
  return in;
}
static void exact(Case& c) {
  Input in = shooter(c);
  in.histories = c.chance(1, 4) ? c.range(1, 40) : c.range(1000, c.thorough ? 400000 : c.chance(1, 10) ? 150000 : 20000);
  in.threads = c.chance(1, 4) ? c.range(2, 64) : c.range(2, 12);
  in.chunksize = c.range(1, 1000);
  in.seed = c.seed() % 2000000000 + 1;
  c.note(in.xml());
  int reps = c.range(1, 3);
  std::optional<Solved> first;
  for (int i = 0; i < reps; i++) {
    Solved r = solve(in, true);
    c.check(r.sum[0][0] == in.histories, cat(r.sum[0][0], " particles left in a run of ", in.histories, " histories on ", in.threads, " threads"));
    auto e = r.entries();
    c.check(e[0].mean[0] == 1 && e[0].sd[0] == 0, cat("mean ", e[0].raw_mean[0], " and standard deviation ", e[0].raw_sd[0], " of a certain event"));
    if (first) { auto d = differ(in, *first, r); c.check(d.empty(), cat("repeating the run on ", in.threads, " threads changes ", d)); }
    else first = r;
    c.evals(in.histories);
  }
  c.nontrivial(in.histories > 1);
}
// the program built with ThreadSanitizer, many histories on several threads
static void races(Case& c) {
  const char* dir = getenv("PBT_TSAN");
  c.check(dir, "harness: PBT_TSAN not set");
  Input in; Files f; bool ce;
  bool many = c.chance(1, 4);
  if (many) { in = shooter(c); ce = false; in.histories = c.range(10000, 30000); } // progress is reported
  else { if (!gen_any(c, in, f, &ce)) c.discard(); in.histories = c.range(50, 400); }
  in.seed = c.seed() % 2000000000 + 1;
  in.threads = c.range(2, 6);
  in.schema = pbt::repo() + "/test/minimc.xsd";
  c.note(in.xml());
  std::string d = pbt::scratch();
  std::ofstream(d + "/in.xml") << in.xml();
  std::string log = d + "/tsan.log";
  std::string cmd = cat("cd ", d, " && ", getenv("PBT_SETARCH") ? getenv("PBT_SETARCH") : "", " env TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_signal_unsafe=0' timeout 100 ", dir, "/runminimc in.xml >/dev/null 2>", log);
  int st = system(cmd.c_str());
  std::ifstream i(log); std::stringstream ss; ss << i.rdbuf();
  std::string text = ss.str();
  if (text.find("ThreadSanitizer: data race") != std::string::npos || text.find("WARNING: ThreadSanitizer") != std::string::npos) c.fail("workers share unsynchronised state:\n" + text.substr(0, 3000));
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.fail(cat("the instrumented program ended with status ", st, ": ", text.substr(0, 1500)));
  c.evals(in.histories);
  c.label(many ? "more than 10000 histories" : ce ? "continuous energy" : "multigroup");
  c.nontrivial(in.threads > 1);
}
PBT_MAIN((pbt::Property{"C06",
  "threads: generated multigroup and continuous-energy problems (binned tallies, sensitivities, fission, both tracking methods) with a fixed seed on one thread and on up to 64 threads, including more threads than histories and repetitions on one thread: identical counts and reported deviations, sensitivities equal to the rounding of a reordered sum. exact: up to 150000 short histories of which each scores exactly once, on 2-64 threads, repeated: count, mean and deviation exact. races: the program built with ThreadSanitizer on generated inputs, a quarter of them with more than 10000 histories, with 2-6 threads. Non-trivial when several threads run several histories that score.",
  {"Interleavings are those the operating system produces on eight busy cores; ThreadSanitizer reports unsynchronised accesses whatever their order."},
  {{"threads", threads, 1200, 6000, true}, {"exact", exact, 300, 1500, true}, {"races", races, 120, 600, true, 120}}}))
