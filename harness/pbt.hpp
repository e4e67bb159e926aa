// Choice-sequence property-based testing engine.
//
// A case is a sequence of bounded integers ("choices"). Generators draw from
// it imperatively; generation mode records what it draws from a seeded
// generator, replay mode feeds a stored sequence back (missing choices are 0,
// and 0 is always the simplest alternative, so deleting or lowering choices
// shrinks the case). Bodies throw through Case::fail() when the property is
// broken. Cases run in forked workers: crashes, aborts and endless loops of
// the code under test are failing cases too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <fstream>
#include <functional>
#include <set>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg{std::move(m)} {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard : std::exception {};

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// Independent generator for reference models (never the RNG under test).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s{mix64(seed ^ 0x1234567ull)} {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  double unit() { return (double)(next() >> 11) * 0x1.0p-53; }
  double open() { double u; do u = unit(); while (u == 0); return u; }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return next(); }
};

struct Shared; // worker <-> parent memory

class Case {
public:
  // --- generation -------------------------------------------------------
  uint64_t below(uint64_t n);                  // [0,n)
  int range(int lo, int hi);                   // inclusive, shrinks to lo
  bool chance(int num, int den);               // true with probability num/den
  double unit();                               // [0,1)
  double real(double lo, double hi);           // any value, often a simple one
  double uniform(double lo, double hi);        // smooth
  double logreal(double lo, double hi);        // log-uniform, lo > 0
  double sign() { return below(2) ? -1. : 1.; }
  uint64_t seed() { return below(0x7ffffffe) + 1; }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  // --- verdicts ---------------------------------------------------------
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void check(bool ok, const std::string& m) { if (!ok) fail(m); }
  [[noreturn]] void discard() { throw Discard{}; }
  // case exercised what the property is about
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const std::string& l) { labels.insert(l); }
  // text describing the case (kept for samples, replays and failures)
  template <class... A> void note(const A&... a) {
    std::ostringstream s; s.precision(17); (s << ... << a); s << "\n";
    if (description.size() < 6000) {
      description += s.str();
      if (note_sink) { *note_sink << s.str() << std::flush; }
    }
  }
  // a listed, unrepaired defect showed up; fails when it is not listed
  void known(const std::string& slug, const std::string& what);
  // count the inner evaluations a case made (points, particles, rays...)
  void evals(uint64_t n) { inner += n; }
  bool thorough = false;
  std::string description;
  std::ofstream* note_sink = nullptr; // survives a crash of the case
  bool nontriv = false;
  std::set<std::string> labels;
  std::set<std::string> knowns;
  uint64_t inner = 0;
  // --- engine -----------------------------------------------------------
  std::vector<uint64_t> data; // recorded or replayed
  size_t pos = 0;
  int mode = 0; // 0 record, 1 replay, 2 bytes
  Rng rng{0};
  const uint8_t* bytes = nullptr;
  size_t nbytes = 0;
  Shared* sh = nullptr;

private:
  uint64_t raw(uint64_t n);
};

struct Facet {
  std::string name;
  std::function<void(Case&)> body;
  int quick;           // cases in the quick tier
  int thorough;        // cases in the thorough tier
  bool nondet = false; // outcome may depend on the schedule
  int cpu_s = 40;      // CPU seconds one case may use before it counts as a hang
};

struct Property {
  std::string id;
  std::string rule;  // how cases are made, what makes one non-trivial
  std::vector<std::string> assumptions;
  std::vector<Facet> facets;
};

int run(int argc, char** argv, const Property& p);

// scratch directory of this process, removed by the engine at the end
std::string scratch();
// where the sources under test live
std::string repo();
// path of a companion binary built by tools/build.sh
std::string bindir();
// run f in a forked child; returns "" if it returned normally, otherwise what
// happened ("exit n", "signal n: tail of stderr")
std::string in_child(const std::function<void()>& f, int cpu_s = 60);
void mute(); // send stdout to /dev/null (tested code is chatty)

template <class... A> std::string cat(const A&... a) {
  std::ostringstream s; s.precision(17); (s << ... << a); return s.str();
}

// --- statistics ----------------------------------------------------------
double gammaq(double a, double x);                 // regularised upper gamma
double chi2_p(double chi2, double dof);
double normal_p2(double z);                        // two-sided
// Pearson test of counts against probabilities; cells with expectation < 8 are
// pooled. Counts in a cell of probability 0 give p = 0.
double multinomial_p(const std::vector<double>& counts, const std::vector<double>& probs);
// homogeneity of two samples of counts
double two_sample_p(const std::vector<double>& a, const std::vector<double>& b);
double ks_p(std::vector<double> sample, const std::function<double(double)>& cdf);
double ks2_p(std::vector<double> a, std::vector<double> b);
double poisson_z(double);
// Decide a distributional claim: f(round, n) draws n fresh samples and returns
// a p-value. Fails only if two fresh samples, the second four times larger,
// both contradict the claim (p < 1e-4 then p < 1e-8).
void confirm(Case& c, const std::string& what, uint64_t n,
    const std::function<double(int round, uint64_t n)>& f);
} // namespace pbt

#define PBT_MAIN(prop) \
  int main(int argc, char** argv) { return pbt::run(argc, argv, prop); }
