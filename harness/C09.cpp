#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// printed with six decimals in scientific notation
static bool printed(double got, double want, double slack) { return std::fabs(got - want) <= 0.6e-6 * std::fabs(want) + slack; }
// Per-history totals from runs of one history each; the report of the whole
// run must give their sample statistics.
static void stats(Case& c) {
  Input in; Files f;
  ProbOpt o; o.thick = 3; o.photons = c.chance(1, 6); o.sens = true;
  GeomOpt g; std::string kind;
  if (!(c.chance(1, 2) ? gen_any(c, in, f, kind, g) : gen_problem(c, in, o))) c.discard();
  if (!kind.empty()) c.label(kind);
  int N = c.chance(1, 5) ? 1 : c.range(2, c.chance(1, 20) ? 600 : 60);
  long long s = c.range(1, 1000000);
  in.histories = N; in.seed = s;
  in.threads = c.chance(1, 3) ? c.range(2, 5) : 1;
  c.note(in.xml());
  auto whole = solve(in, true);
  auto E = whole.entries();
  std::vector<std::vector<double>> s1(E.size()), s2(E.size()), big(E.size());
  for (size_t e = 0; e < E.size(); e++) { s1[e].assign(E[e].mean.size(), 0); s2[e] = big[e] = s1[e]; }
  bool multi = false;
  Input one = in; one.histories = 1; one.threads = 1;
  for (int k = 0; k < N; k++) {
    one.seed = s + k;
    auto r = solve(one, true);
    auto F = r.entries();
    c.check(F.size() == E.size(), "number of tallies in the report");
    size_t tally = 0;
    for (size_t e = 0; e < F.size(); e++) {
      // exact sums where the interface has them, printed ones for sensitivities
      for (size_t i = 0; i < F[e].mean.size(); i++) {
        double v = F[e].sens ? F[e].mean[i] : r.sum[tally][i];
        s1[e][i] += v; s2[e][i] += v * v; big[e][i] += std::fabs(v);
        multi |= !F[e].sens && v > 1;
      }
      if (!F[e].sens) tally++;
    }
  }
  bool some = false;
  size_t tally = 0;
  for (size_t e = 0; e < E.size(); e++) {
    for (size_t i = 0; i < s1[e].size(); i++) {
      double m = s1[e][i] / N, v = s2[e][i] - s1[e][i] * s1[e][i] / N, sd = std::sqrt(std::max(0., v)) / N;
      double ms = E[e].sens ? 1e-6 * big[e][i] / N : 0;                       // printed inputs
      double noise = (E[e].sens ? 1e-5 : 1e-15) * s2[e][i];                     // of the variance
      double ss = std::sqrt(std::max(0., v) + noise) / N - sd + (sd > 0 ? noise / (2 * std::sqrt(std::max(v, 1e-300))) / N : 0);
      if (noise > v) ss = std::sqrt(2 * noise) / N;
      c.check(printed(E[e].mean[i], m, ms), cat(E[e].name, " bin ", i, ": mean ", E[e].mean[i], ", the histories give ", m));
      c.check(printed(E[e].sd[i], sd, ss), cat(E[e].name, " bin ", i, ": standard deviation ", E[e].sd[i], ", the histories give ", sd));
      if (s2[e][i] == 0) c.check(E[e].mean[i] == 0 && E[e].sd[i] == 0, E[e].name + ": a bin without scores must report zero");
      some |= sd > 0;
    }
    if (!E[e].sens) { for (size_t i = 0; i < s1[e].size(); i++) c.check(whole.sum[tally][i] == s1[e][i], E[e].name + ": score sum"); tally++; }
  }
  c.evals(2 * N);
  if (multi) c.label("a history scored a bin more than once");
  c.nontrivial(some && N > 1);
}
PBT_MAIN((pbt::Property{"C09",
  "Generated multigroup problems, a quarter of the time continuous-energy ones (thermal scattering, photons, gradients) (as for C07, with binned tallies, sensitivities, subcritical fission so that descendants score too). stats: 1-60, at times up to 600, histories are first run one by one, giving every history's exact total per bin; the mean and standard deviation printed for the whole run, on one or several threads, must be their sample statistics to the printed precision, and zero where nothing scored. Non-trivial when some bin has a positive deviation.",
  {"Per-history totals of sensitivities are read from printed reports (7 digits)."},
  {{"stats", stats, 9000, 50000}}}))
