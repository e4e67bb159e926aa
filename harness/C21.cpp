#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static const char* kSlug = "stream-weight";
static const char* kWhat = "the derivative weight of a flight";
// weights a flight of length d may add, by what it is the derivative of
struct Weights { double mag = 0, known = 0, sigma = 0, log = 0, macro = 0; };
static double microtot(const Input& in, const Mat& m, bool photon, int g, const std::string& nuc, double* afrac, double* own) {
  double s = 0, q = 0; *afrac = 0; *own = 0;
  for (auto& [n, f] : m.nuclides) for (auto& x : in.nuclides) if (x.name == n) { auto& d = photon ? x.photon : x.neutron; double t = d ? mg_total(*d, in.groups, g) : 0; s += f * t; q += f; if (n == nuc) { *afrac += f; *own = t; } break; }
  *afrac /= q;
  return s / q;
}
static bool contains(const Mat& m, const std::string& n) { for (auto& x : m.nuclides) if (x.first == n) return true; return false; }
static void fly(Weights& w, const Input& in, const Mat& m, bool photon, int g, const std::string& nuc, double d, bool collides) {
  if (!contains(m, nuc)) return;
  double a, own, t = microtot(in, m, photon, g, nuc, &a, &own);
  w.known += 1 / t - d; w.mag += 1 / t + d;
  double per = m.aden * a, C = collides ? 1 / (m.aden * t) : 0;
  w.sigma += per * (C - d); w.log += per * own * (C - d); w.macro += C - d;
}
static void gen_sens(Case& c, Input& in, const std::vector<std::string>& nucs) {
  int np = c.range(1, 3);
  bool odd = c.chance(1, 2); Names name(c);
  for (int i = 0; i < np; i++) in.perturbations.push_back({odd ? name(i) : std::string(1, (char)('p' + (i * 5) % 7)) + std::to_string(i), c.pick(nucs)});
  bool any = false;
  for (auto& t : in.tallies) for (int i = 0; i < np; i++) if (c.chance(2, 3)) { t.sens.push_back(in.perturbations[i].name); any = true; }
  for (auto& t : in.tallies) if (t.sens.size() > 1 && c.chance(1, 2)) std::swap(t.sens.front(), t.sens.back());
  if (!any) in.tallies[0].sens.push_back(in.perturbations[0].name);
}
// nuclide names that some non-void region contains, in the order found
static std::vector<std::string> used_nuclides(const Input& in) {
  std::vector<std::string> v;
  for (auto& r : in.regions) if (!r.is_void) for (auto& n : mat_of(in, (int)(&r - &in.regions[0]))->nuclides) if (std::find(v.begin(), v.end(), n.first) == v.end()) v.push_back(n.first);
  return v;
}
// compares every sensitivity's mean per bin with the expected weights
static void compare(Case& c, const Input& in, const std::string& text, const std::map<std::string, std::vector<Weights>>& want, double N, double tol, bool* nonzero, bool fixed_sd) {
  auto E = parse_report(text);
  size_t k = 0;
  for (auto& t : in.tallies) {
    c.check(k < E.size() && E[k].name == t.name, "tally " + t.name + " missing from the report");
    k++;
    for (auto& s : t.sens) {
      std::string name = t.name + "::" + s;
      c.check(k < E.size() && E[k].sens && E[k].name == name, "sensitivity " + name + " missing from the report");
      auto& e = E[k++];
      auto& w = want.at(name);
      c.check(e.mean.size() == t.size(), cat(name, " has ", e.mean.size(), " bins, the tally has ", t.size()));
      int alt = 15;
      for (size_t i = 0; i < w.size(); i++) {
        auto close = [&](double v) { return std::fabs(e.mean[i] - v) <= tol * std::fabs(v); };
        if (w[i].known != 0) *nonzero = true;
        if (!(std::fabs(e.mean[i] - w[i].known) <= tol * w[i].mag)) alt &= ~1;
        if (!close(w[i].sigma)) alt &= ~2;
        if (!close(w[i].log)) alt &= ~4;
        if (!close(w[i].macro)) alt &= ~8;
      }
      bool trivial = true; for (auto& x : w) trivial &= x.known == 0 && x.sigma == 0 && x.log == 0 && x.macro == 0;
      if (alt == 0) {
        std::string l; for (size_t i = 0; i < w.size(); i++) l += cat(i ? "; " : "", "bin ", i, ": ", e.mean[i], " (derivative ", w[i].log, ", as listed ", w[i].known, ")");
        c.fail(name + " is neither the derivative weight nor the listed deviation: " + l);
      }
      if (!trivial && alt == 1) c.known(kSlug, kWhat);
      if (fixed_sd) for (size_t i = 0; i < w.size(); i++) c.check(e.sd[i] <= 1e-4 * w[i].mag / std::sqrt(N), cat(name, ": every history is the same but the standard deviation is ", e.sd[i]));
    }
  }
}
// free flights through matter too thin to collide: weights of exact segments
static void flights(Case& c) {
  Input in; GeomOpt g;
  ProbOpt o; o.photons = c.chance(1, 3); o.coincident = false; o.fission = true; o.max_nuclides = 4;
  if (!gen_problem(c, in, o, &g)) c.discard();
  for (auto& m : in.materials) m.aden = 1e-13 * c.logreal(0.01, 1) / g.scale;
  V3 d = gen_dir(c); double best = -1;
  for (int k = 0; k < 5; k++) {
    V3 e = k == 0 ? gen_dir(c) : (g.offset + gen_dir(c) * (g.scale * c.uniform(0, 1)) - in.pos).unit();
    bool ok = true; auto t = trace(in, in.pos, V(D(e)), g.scale, 1e-5, &ok);
    if (ok && (int)t.size() > best) { d = e; best = t.size(); }
  }
  in.direction_xml = dir_xml(d);
  bool clear = true;
  V3 u = V(D(d));
  auto tr = trace(in, in.pos, u, g.scale, 1e-5, &clear);
  if (!clear || tr.empty()) c.discard();
  for (auto& t : in.tallies) if (t.energy.kind == Axis::logspace) t.energy = Axis{};
  in.histories = c.range(1, 30); in.threads = c.range(1, 4);
  gen_sens(c, in, used_nuclides(in));
  c.note(in.xml());
  bool photon = in.type == "photon"; int gr = std::stoi(in.energy) - 1;
  std::map<std::string, std::vector<Weights>> want;
  for (auto& t : in.tallies) for (auto& s : t.sens) {
    std::string nuc; for (auto& p : in.perturbations) if (p.name == s) nuc = p.nuclide;
    std::vector<Weights> v(t.size()); Weights w; Ld at = 0;
    for (auto& x : tr) {
      fly(w, in, *mat_of(in, x.from), photon, gr, nuc, (double)(x.at - at), false);
      at = x.at;
      if (in.surfaces[x.surface].name == t.surface) { bool ok = true; auto b = bin_of(t, u, gr + 1, &ok); if (!ok) c.discard(); v[b].known += w.known; v[b].mag += w.mag; v[b].sigma += w.sigma; v[b].log += w.log; v[b].macro += w.macro; }
    }
    want[t.name + "::" + s] = v;
  }
  auto s = solve(in, true);
  bool nz = false;
  compare(c, in, s.text, want, in.histories, 1e-4, &nz, false);
  c.evals(in.histories);
  c.label(cat("crossings ", std::min<size_t>(tr.size(), 6)));
  c.nontrivial(nz);
}
// the same beams through continuous-energy matter and photons
static void ce_flights(Case& c) {
  Input in; GeomOpt g; Files f;
  bool tsl = c.chance(1, 4), photon = c.chance(1, 3);
  double T = tsl ? c.uniform(400, 600) : c.uniform(150, 1200), E0 = kBoltzmann * T * c.logreal(0.01, 1000);
  auto ns = gen_ce_nuclides(c, tsl, true, T);
  if (photon) {
    for (auto& n : ns) { CeOpt o; o.lo = kBoltzmann * T * 1e-3; o.hi = o.lo * 1e7; o.fission = false; n.photon = gen_ce(c, o, n.awr); if (!n.photon->capture) n.photon->capture = Eval{gen_xs(c, gen_axis(c, 2, o.lo, o.hi, true), 1), T}, n.photon->total.reset(); }
    in.particles = "neutron photon"; in.type = c.chance(1, 2) ? "photon" : "neutron";
  }
  bool neutron = in.type != "photon";
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
  auto field = gen_temperatures(c, in, T * 0.5, T * 1.5, false, c.chance(1, 2));
  in.tracking = "surface";
  for (auto& m : in.materials) m.aden *= 1e-13;
  in.seed = c.seed() % 2000000000 + 1; in.histories = c.range(1, 30); in.threads = c.range(1, 4);
  V3 d = gen_dir(c); double best = -1;
  for (int k = 0; k < 5; k++) {
    V3 e = k == 0 ? gen_dir(c) : (g.offset + gen_dir(c) * (g.scale * c.uniform(0, 1)) - in.pos).unit();
    bool ok = true; auto t = trace(in, in.pos, V(D(e)), g.scale, 1e-5, &ok);
    if (ok && (int)t.size() > best) { d = e; best = t.size(); }
  }
  in.direction_xml = dir_xml(d);
  bool clear = true; V3 u = V(D(d));
  auto tr = trace(in, in.pos, u, g.scale, 1e-5, &clear);
  if (!clear || tr.empty()) c.discard();
  for (auto& t : in.tallies) if (c.chance(1, 2)) t.energy = Axis{};
  gen_sens(c, in, used_nuclides(in));
  c.note(in.xml());
  std::map<std::string, std::vector<Weights>> want;
  for (auto& t : in.tallies) for (auto& s : t.sens) {
    std::string nuc; for (auto& p : in.perturbations) if (p.name == s) nuc = p.nuclide;
    std::vector<Weights> v(t.size()); Weights w; Ld at = 0;
    for (auto& x : tr) {
      auto& m = *mat_of(in, x.from);
      double len = (double)(x.at - at); at = x.at;
      if (contains(m, nuc)) {
        double q = 0, tot = 0, a = 0, own = 0, TT = (double)temp_at(in, field, x.from, in.pos);
        for (auto& [n, fr] : m.nuclides) for (auto& y : ns) if (y.name == n) { double z = (double)ce_total(y, neutron, E0, TT); q += fr; tot += fr * z; if (n == nuc) { a += fr; own = z; } break; }
        tot /= q; a /= q;
        if (!(tot > 0)) c.discard();
        w.known += 1 / tot - len; w.mag += 1 / tot + len;
        w.sigma -= m.aden * a * len; w.log -= m.aden * a * own * len; w.macro -= len;
      }
      if (in.surfaces[x.surface].name == t.surface) { bool ok = true; auto b = bin_of(t, u, E0, &ok); if (!ok) c.discard(); v[b].known += w.known; v[b].mag += w.mag; v[b].sigma += w.sigma; v[b].log += w.log; v[b].macro += w.macro; }
    }
    want[t.name + "::" + s] = v;
  }
  auto s = solve(in, true);
  bool nz = false;
  compare(c, in, s.text, want, in.histories, 1e-4, &nz, false);
  c.evals(in.histories);
  c.label(cat(tsl ? "thermal scattering" : "continuous energy", neutron ? ", neutrons" : ", photons"));
  c.label(cat("crossings ", std::min<size_t>(tr.size(), 6)));
  c.nontrivial(nz);
}
// collisions that are certain: a dense core scatters or fissions its way down
// the groups, the last group flies out
static void cascade(Case& c) {
  Input in;
  int G = c.range(2, 5);
  in.groups = G;
  double R = c.logreal(0.1, 10);
  V3 o{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)};
  o = o * R;
  auto sph = [&](const char* n, double r) { Surf s; s.kind = Surf::sphere; s.name = n; s.c = o; s.r = r; in.surfaces.push_back(s); };
  double rc = R * 1e-6 * c.uniform(1, 5);
  sph("core", rc); sph("mid", R * c.uniform(0.3, 0.8)); sph("out", R);
  const double N = 1e13 / rc, thin = 1e-27;
  MgNuclide f, k, l; f.name = "f"; k.name = "k"; l.name = "l";
  f.neutron = Mg{}; k.neutron = Mg{}; l.neutron = Mg{};
  double prod = 1; std::vector<bool> fis;
  auto& F = *f.neutron;
  F.scatter.assign(G * G, 0); F.fis_xs.assign(G, 0); F.chi.assign(G * G, 0); F.nubar.assign(G, 0);
  std::vector<double> t;
  for (int g = 0; g + 1 < G; g++) {
    t.push_back(c.logreal(0.2, 5));
    fis.push_back(c.chance(1, 3));
    if (fis[g]) { int y = c.range(1, 3); if (prod * y > 30) y = 1; prod *= y; F.nubar[g] = y; F.fis_xs[g] = t[g]; F.chi[(g + 1) * G + g] = 1; }
    else F.scatter[(g + 1) * G + g] = t[g];
  }
  t.push_back(thin * c.uniform(1, 5)); F.scatter[G * G - 1] = t[G - 1]; F.chi[G * G - 1] = 1;
  // the shells never collide but have ordinary cross sections
  for (auto* n : {&k, &l}) { n->neutron->capture.assign(G, 0); for (int g = 0; g < G; g++) n->neutron->capture[g] = c.logreal(0.2, 5) * R; }
  in.nuclides = {f, k, l};
  in.materials = {{"fuel", N, {{"f", c.logreal(0.5, 2)}}}, {"one", 1e-14 / R / R, {{"k", 1}}}, {"two", 1e-14 / R / R, {{"l", 1}}}};
  if (c.chance(1, 2)) in.materials[1].nuclides.push_back({"l", c.logreal(0.1, 1)});
  in.regions = {{false, "a", "fuel", std::nullopt, {{0, -1}}}, {false, "m", "one", std::nullopt, {{0, +1}, {1, -1}}}, {false, "e", "two", std::nullopt, {{1, +1}, {2, -1}}}, {true, "", "", std::nullopt, {{2, +1}}}};
  for (auto& s : in.surfaces) in.tallies.push_back(Tally{"t" + s.name, s.name});
  for (auto& q : in.tallies) if (c.chance(1, 2)) { q.energy.kind = Axis::boundaries; for (int g = 1; g <= G; g++) q.energy.bounds.push_back(g); }
  int where = c.below(3); V3 d0 = gen_dir(c); double start = 0;
  if (where) { start = where == 1 ? (in.surfaces[0].r + in.surfaces[1].r) / 2 : (in.surfaces[1].r + R) / 2; in.direction_xml = dir_xml(d0 * -1); }
  in.pos = o + d0 * start; in.energy = "1"; in.histories = c.range(1, 20); in.threads = c.range(1, 4); in.seed = c.seed() % 2000000000 + 1;
  if (c.chance(1, 2)) in.tracking = "cell delta";
  for (auto& q : in.tallies) if (c.chance(1, 3)) { q.cosine = gen_cos_axis(c); q.cosine = Axis{}; }
  gen_sens(c, in, {"f", "k", "l", "k", "l"});
  c.note(in.xml());
  std::map<std::string, std::vector<Weights>> want;
  for (auto& q : in.tallies) for (auto& s : q.sens) {
    std::string nuc; for (auto& p : in.perturbations) if (p.name == s) nuc = p.nuclide;
    Weights w;
    std::vector<Weights> v(q.size());
    auto put = [&](int i, int g, double times) { if (in.surfaces[i].name == q.surface) { auto b = bin_of(q, {1, 0, 0}, g); v[b].known += w.known * times; v[b].mag += w.mag * times; v[b].sigma += w.sigma * times; v[b].log += w.log * times; v[b].macro += w.macro * times; } };
    if (where == 2) { fly(w, in, in.materials[2], false, 0, nuc, start - in.surfaces[1].r, false); put(1, 1, 1); }
    if (where) { fly(w, in, in.materials[1], false, 0, nuc, (where == 2 ? in.surfaces[1].r : start) - in.surfaces[0].r, false); put(0, 1, 1); }
    for (int g = 0; g + 1 < G; g++) { fly(w, in, in.materials[0], false, g, nuc, 0, true); if (fis[g]) w = Weights{}; }
    double r = 0; // every collision happens in the tiny core
    for (int i = 0; i < 3; i++) {
      fly(w, in, in.materials[i], false, G - 1, nuc, in.surfaces[i].r - r, false);
      r = in.surfaces[i].r;
      put(i, G, prod);
    }
    want[q.name + "::" + s] = v;
  }
  auto s = solve(in, true);
  for (int i = 0; i < 3; i++) { double sum = 0; for (double y : s.sum[i]) sum += y; double more = i == 0 ? where > 0 : i == 1 ? where == 2 : 0; c.check(sum == in.histories * (prod + more), cat("surface ", in.surfaces[i].name, " was crossed ", sum, " times by ", in.histories, " histories, expected ", in.histories * (prod + more))); }
  bool nz = false;
  compare(c, in, s.text, want, in.histories, 1e-4, &nz, true);
  c.evals(in.histories);
  c.label(prod > 1 ? "fission" : "scatter only");
  c.nontrivial(nz && G > 1);
}
// mean of every sensitivity bin over many runs against a reference walk, which
// calls on_cross(surface, direction, energy, weights)
template <class Fn> static void against_walk(Case& c, Input& in, Fn history, int runs) {
  int np = in.perturbations.size();
  uint64_t seed = c.seed();
  bool nz = false; int variant = 0; std::string last;
  // sensitivities in report order: (tally, perturbation)
  std::vector<std::pair<size_t, int>> se;
  for (size_t t = 0; t < in.tallies.size(); t++) for (auto& s : in.tallies[t].sens) for (int i = 0; i < np; i++) if (in.perturbations[i].name == s) se.push_back({t, i});
  auto run = [&](int round, uint64_t n) {
    pbt::Rng r(pbt::mix64(seed) + round);
    std::vector<std::vector<std::vector<double>>> a(se.size()), b[4], h(se.size());
    for (auto& x : b) x.resize(se.size());
    for (size_t k = 0; k < se.size(); k++) { size_t z = in.tallies[se[k].first].size(); a[k].resize(z); h[k].resize(z); for (auto& x : b) x[k].resize(z); }
    for (uint64_t q = 0; q < n; q++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + q)) % 2000000000;
      auto E = parse_report(solve(in, true).text);
      size_t k = 0;
      for (auto& e : E) if (e.sens) { c.check(k < se.size() && e.mean.size() == a[k].size(), "unexpected sensitivities in the report"); for (size_t i = 0; i < e.mean.size(); i++) a[k][i].push_back(e.mean[i]); k++; }
      c.check(k == se.size(), "sensitivities missing from the report");
      std::vector<std::vector<Weights>> w; std::vector<std::vector<double>> cnt; for (auto& s : se) { w.emplace_back(in.tallies[s.first].size()); cnt.emplace_back(w.back().size(), 0.); }
      for (int hh = 0; hh < in.histories; hh++) history(r, ref_dir(r, in.direction_xml), [&](int sf, V3 d, double energy, const std::vector<Weights>& pw) {
        for (size_t s = 0; s < se.size(); s++) { auto& t = in.tallies[se[s].first]; if (t.surface != in.surfaces[sf].name) continue; size_t i = bin_of(t, d, energy); auto& x = pw[se[s].second]; w[s][i].known += x.known; w[s][i].sigma += x.sigma; w[s][i].log += x.log; w[s][i].macro += x.macro; cnt[s][i]++; nz |= x.known != 0; }
      });
      double H = in.histories;
      for (size_t s = 0; s < se.size(); s++) for (size_t i = 0; i < w[s].size(); i++) { b[0][s][i].push_back(w[s][i].known / H); b[1][s][i].push_back(w[s][i].log / H); b[2][s][i].push_back(w[s][i].sigma / H); b[3][s][i].push_back(w[s][i].macro / H); h[s][i].push_back(cnt[s][i]); }
    }
    double top = 0; std::string first;
    for (int v = 0; v < 4; v++) {
      double best = 1; int tests = 0; std::string l;
      for (size_t s = 0; s < se.size(); s++) for (size_t i = 0; i < a[s].size(); i++) {
        double m = 0; for (double y : h[s][i]) m += y; if (m < 1000) continue; // too few crossings for the mean to be normal
        tests++;
        double p = same_mean_p(a[s][i], b[v][s][i]);
        if (p < best) { best = p; double x = 0, y = 0; for (double z : a[s][i]) x += z / n; for (double z : b[v][s][i]) y += z / n; l = cat(in.tallies[se[s].first].name, "::", in.perturbations[se[s].second].name, " bin ", i, ": ", x, ", the reference gives ", y); }
      }
      best = std::min(1., best * std::max(1, tests));
      if (v == 0) first = l;
      if (best > top) { top = best; variant = v; }
    }
    last = first;
    return top;
  };
  try { pbt::confirm(c, "sensitivities against the reference walk", c.thorough ? 4 * runs : runs, run); }
  catch (pbt::Failure& f) { throw pbt::Failure{f.msg + "\n" + last}; }
  if (nz && variant == 0) c.known(kSlug, kWhat);
  c.evals(runs * in.histories);
  c.nontrivial(nz);
}
// whole problems: mean of every bin against the weights of a reference walk
static void histories(Case& c) {
  Input in; GeomOpt g;
  ProbOpt o; o.coincident = false; o.max_tallies = 2; o.max_depth = 2; o.thick = 2; o.zeros = false; o.photons = false;
  if (!gen_problem(c, in, o, &g)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  for (auto& t : in.tallies) if (t.energy.kind == Axis::logspace) t.energy = Axis{};
  in.histories = 200;
  gen_sens(c, in, used_nuclides(in));
  c.note(in.xml());
  int G = in.groups, g0 = std::stoi(in.energy) - 1, np = in.perturbations.size();
  RefMC ref(in, g.scale); // tables only
  std::vector<std::vector<char>> has; for (auto& m : in.materials) { has.emplace_back(); for (auto& p : in.perturbations) has.back().push_back(contains(m, p.nuclide)); }
  struct P { V3 x, d; int g; std::vector<Weights> w; };
  auto history = [&](pbt::Rng& r, V3 d0, auto on_cross) {
    std::vector<P> st{{in.pos, d0, g0, std::vector<Weights>(np)}}; size_t steps = 0;
    while (!st.empty()) {
      P p = st.back(); st.pop_back(); int cell = in.locate(p.x);
      while (true) {
        if (++steps > 1000000) throw pbt::Failure{"reference walk does not end"};
        int m = ref.region_mat[cell]; auto& mt = in.materials[m];
        double S = mt.aden * ref.sigma[m][0][p.g], dc = -std::log(r.open()) / S;
        Ld ds = std::numeric_limits<Ld>::infinity(); int sf = -1;
        for (auto& s : in.regions[cell].sides) for (Ld t : in.surfaces[s.first].roots(p.x, p.d)) if (t > 0 && t < ds) { ds = t; sf = s.first; }
        bool hit = dc < ds; double len = hit ? dc : (double)ds;
        for (int i = 0; i < np; i++) if (has[m][i]) fly(p.w[i], in, mt, false, p.g, in.perturbations[i].nuclide, len, hit);
        if (hit) {
          p.x = p.x + p.d * dc;
          double u = r.unit() * ref.sigma[m][0][p.g], a = 0; size_t k = 0;
          for (; k + 1 < ref.nucs[m].size(); k++) { a += ref.frac[m][k] * mg_total(*in.nuclides[ref.nucs[m][k]].neutron, G, p.g); if (a > u) break; }
          const Mg& n = *in.nuclides[ref.nucs[m][k]].neutron;
          double v = r.unit() * mg_total(n, G, p.g), cap = n.capture.empty() ? 0 : n.capture[p.g], sc = mg_scatter(n, G, p.g);
          if (v < cap) break;
          v -= cap;
          if (v < sc) { double w = r.unit() * sc, b = 0; int to = 0; for (; to + 1 < G; to++) { b += n.scatter[to * G + p.g]; if (b > w) break; } p.g = to; p.d = smooth_dir(r); continue; }
          if (n.fis_xs.empty()) break;
          int y = (int)(n.nubar[p.g] + r.unit());
          double cs = 0; for (int q = 0; q < G; q++) cs += n.chi[q * G + p.g];
          for (int i = 0; i < y; i++) { double w = r.unit() * cs, b = 0; int to = 0; for (; to + 1 < G; to++) { b += n.chi[to * G + p.g]; if (b > w) break; } st.push_back({p.x, smooth_dir(r), to, std::vector<Weights>(np)}); }
          break;
        }
        if (sf < 0) throw pbt::Failure{"reference walk escapes"};
        p.x = p.x + p.d * ((double)ds + ref.nudge);
        cell = in.locate(p.x);
        if (cell < 0) throw pbt::Failure{"reference walk leaves the geometry"};
        on_cross(sf, p.d, p.g + 1., p.w);
        if (in.regions[cell].is_void) break;
      }
    }
  };
  against_walk(c, in, history, 100);
}
// continuous energy: neutrons scatter off a thermal target and fission
static void ce_histories(Case& c) {
  Input in; GeomOpt g; Files f;
  double T = c.uniform(150, 1200), E0 = kBoltzmann * T * c.logreal(0.05, 100);
  auto ns = gen_ce_nuclides(c, false, true, T);
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  auto field = gen_temperatures(c, in, T * 0.5, T * 1.5, false, c.chance(1, 2));
  in.tracking = "surface"; in.histories = 200;
  gen_sens(c, in, used_nuclides(in));
  c.note(in.xml());
  int np = in.perturbations.size();
  struct Part { V3 x, d; double E; std::vector<Weights> w; };
  double nudge = 1e-9 * g.scale; bool scattered = false;
  auto history = [&](pbt::Rng& r, V3 d0, auto on_cross) {
    std::vector<Part> st{{in.pos, d0, E0, std::vector<Weights>(np)}}; size_t steps = 0;
    while (!st.empty()) {
      Part p = st.back(); st.pop_back(); int cell = in.locate(p.x);
      while (true) {
        if (++steps > 1000000) throw pbt::Failure{"reference walk does not end"};
        const Mat& m = *mat_of(in, cell);
        double TT = (double)temp_at(in, field, cell, p.x), tot = 0, q = 0;
        std::vector<double> share; std::vector<const CeNuclide*> nu;
        for (auto& [n, fr] : m.nuclides) for (auto& y : ns) if (y.name == n) { q += fr; share.push_back(fr * (double)ce_total(y, true, p.E, TT)); tot += share.back(); nu.push_back(&y); break; }
        double dc = -std::log(r.open()) / (tot / q * m.aden);
        Ld ds = std::numeric_limits<Ld>::infinity(); int sf = -1;
        for (auto& s : in.regions[cell].sides) for (Ld t : in.surfaces[s.first].roots(p.x, p.d)) if (t > 0 && t < ds) { ds = t; sf = s.first; }
        bool hit = dc < ds; double len = hit ? dc : (double)ds;
        for (int i = 0; i < np; i++) if (contains(m, in.perturbations[i].nuclide)) {
          double a = 0, own = 0;
          for (size_t k = 0; k < nu.size(); k++) if (nu[k]->name == in.perturbations[i].nuclide) { a = m.nuclides[k].second / q; own = share[k] / m.nuclides[k].second; }
          double t = tot / q, C = hit ? 1 / (m.aden * t) : 0, per = m.aden * a; auto& w = p.w[i];
          w.known += 1 / t - len; w.mag += 1 / t + len; w.sigma += per * (C - len); w.log += per * own * (C - len); w.macro += C - len;
        }
        if (hit) {
          p.x = p.x + p.d * dc;
          double u = r.unit() * tot; size_t i = 0; while (i + 1 < share.size() && u >= share[i]) u -= share[i++];
          const CeNuclide& n = *nu[i]; const CeData& d = *n.neutron;
          double cap = d.capture ? (double)d.capture->xs.at(p.E) : 0, sc = (double)ce_scatter(n, true, p.E, TT), fi = d.fission ? (double)d.fission->xs.at(p.E) : 0;
          double v = r.unit() * (cap + sc + fi);
          if (v < cap) break;
          if (v < cap + sc) { auto o = ref_free_gas(r, n.awr, p.E, TT, p.d); p.E = o.E; p.d = o.d; scattered = true; continue; }
          int y = (int)((double)d.nubar.at(p.E) + r.unit());
          for (int k = 0; k < y; k++) st.push_back({p.x, smooth_dir(r), p.E, std::vector<Weights>(np)});
          break;
        }
        if (sf < 0) throw pbt::Failure{"reference walk escapes"};
        p.x = p.x + p.d * ((double)ds + nudge);
        cell = in.locate(p.x);
        if (cell < 0) throw pbt::Failure{"reference walk leaves the geometry"};
        on_cross(sf, p.d, p.E, p.w);
        if (in.regions[cell].is_void) break;
      }
    }
  };
  against_walk(c, in, history, 60);
  c.label(scattered ? "scattering" : "no scattering");
}
PBT_MAIN((pbt::Property{"C21",
  "flights: beams through generated regions of matter too thin to collide, 1-3 perturbations, 1-4 binned tallies, 1-4 threads: the mean of every sensitivity bin must be the weight of the exact flight segments in materials containing the nuclide. ce_flights: the same through continuous-energy matter (thermal scattering nuclides, temperatures per region, neutrons and photons) with surface tracking. cascade: collisions that are certain (the source flies through shells into a tiny dense core, scatters and fissions down the groups there, then flies out): weights of the collided flights carry over to a scattered particle and start at zero for a fission neutron; deviations must vanish. histories: generated problems, mean of every sensitivity bin over 100 runs of 200 histories against a reference walk that carries the weights. ce_histories: the same in continuous-energy matter, 60 runs of 200 histories. A weight must be the derivative with respect to the nuclide's (or the macroscopic) cross section or exactly the deviation listed in known_findings.txt. Non-trivial when a weight is not zero.",
  {"Reported values have seven digits.", "Bins with fewer than 1000 crossings are not compared in histories."},
  {{"flights", flights, 9000, 36000}, {"ce_flights", ce_flights, 6000, 24000}, {"cascade", cascade, 12000, 48000}, {"histories", histories, 480, 1920, false, 120}, {"ce_histories", ce_histories, 480, 1920, false, 120}}}))
