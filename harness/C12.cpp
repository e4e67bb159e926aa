#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// expected tallies against an independent random walk of the same problem
static void currents(Case& c) {
  Input in;
  ProbOpt o; o.photons = c.chance(1, 5); o.thick = 2.5; o.coincident = false;
  GeomOpt g;
  if (!gen_problem(c, in, o, &g)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  // energy bins strictly between groups, so that rounding of a boundary does not matter
  for (auto& t : in.tallies) if (t.energy.kind == Axis::logspace) { t.energy = Axis{}; }
  in.histories = 250;
  c.note(in.xml());
  uint64_t seed = c.seed();
  RefMC ref(in, g.scale);
  int g0 = std::stoi(in.energy) - 1, ty0 = in.type == "photon";
  bool any = false; std::string last;
  auto run = [&](int round, uint64_t n) {
    ChunkTest T(in);
    pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      T.push(T.a, s.sum);
      std::vector<std::vector<double>> w; for (auto& t : in.tallies) w.emplace_back(t.size(), 0.);
      for (int h = 0; h < in.histories; h++)
        ref.history(r, ref_dir(r, in.direction_xml), g0, ty0, [&](int sf, const RefMC::P& p) {
          for (size_t t = 0; t < w.size(); t++) if (in.tallies[t].surface == in.surfaces[sf].name) { w[t][bin_of(in.tallies[t], p.d, p.g + 1)]++; any = true; }
        });
      T.push(T.b, w);
    }
    double p = T.p();
    last = T.worst;
    return p;
  };
  try { pbt::confirm(c, "expected currents against the reference walk", c.thorough ? 400 : 120, run); }
  catch (pbt::Failure& f) { throw pbt::Failure{f.msg + "\n" + last}; }
  c.evals(120 * 250);
  int mats = 0, used = 0; for (auto& m : in.materials) { bool u = false; for (auto& r : in.regions) u |= r.material == m.name; mats += u; } for (auto& r : in.regions) used += !r.is_void;
  if (used > 1) c.label("several regions");
  if (mats > 1) c.label("several materials");
  for (auto& n : in.nuclides) if (!n.neutron->fis_xs.empty()) c.label("fission data");
  if (in.tracking == "cell delta") c.label("cell delta");
  c.nontrivial(any);
}
// the same with continuous-energy data; regions differ in temperature
static void ce_currents(Case& c) {
  Input in; GeomOpt g; Files f;
  bool tsl = c.chance(1, 4);
  double T = tsl ? c.uniform(200, 1000) : c.uniform(50, 1500);
  auto ns = gen_ce_nuclides(c, tsl, true, T); for (auto& n : ns) if (n.neutron->tsl) gains(c, *n.neutron->tsl);
  double E0 = kBoltzmann * T * (c.chance(1, 2) ? c.logreal(0.05, 30) : c.logreal(30, 1e4));
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  Field fl; fl.c = T; bool own = c.chance(1, 2);
  if (c.chance(5, 6)) in.temperature_xml = fl.xml(); else fl.c = 293.6;
  if (own) for (auto& r : in.regions) if (!r.is_void && c.chance(1, 2)) r.temperature = tsl ? c.uniform(200, 1000) : c.uniform(20, 2000);
  in.tracking = c.chance(1, 3) ? "cell delta" : c.chance(1, 2) ? "surface" : "";
  in.histories = 200;
  c.note(in.xml());
  uint64_t seed = c.seed(); std::string last; bool any = false;
  Walk ref(in, ns, fl, g.scale);
  try {
  pbt::confirm(c, "expected currents against the reference walk", c.thorough ? 400 : 100, [&](int round, uint64_t n) {
    ChunkTest T(in); pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      T.push(T.a, s.sum);
      std::vector<std::vector<double>> w; for (auto& t : in.tallies) w.emplace_back(t.size(), 0.);
      for (int h = 0; h < in.histories; h++)
        ref.history(r, ref_dir(r, in.direction_xml), E0, [&](int sf, V3 d, double E) { for (size_t t = 0; t < w.size(); t++) if (in.tallies[t].surface == in.surfaces[sf].name) { w[t][bin_of(in.tallies[t], d, E)]++; any = true; } });
      T.push(T.b, w);
    }
    double p = T.p(); last = T.worst; return p;
  });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last}; }
  c.evals(100 * 200);
  c.label(in.tracking == "cell delta" ? "cell delta" : "surface");
  if (own) c.label("regions with their own temperature");
  for (auto& n : ns) { if (n.neutron->fission) c.label("fission data"); if (n.neutron->tsl) c.label("thermal scattering"); }
  c.nontrivial(any);
}
// a beam through absorbing regions: each crossing is reached with probability
// exp(-optical thickness up to it)
static void beam(Case& c) {
  Input in; GeomOpt g;
  g.scale = c.logreal(0.1, 10); g.max_depth = 3; g.coincident = false;
  gen_regions(c, in, g);
  if (!gen_start(c, in, g)) c.discard();
  int nm = c.range(1, 4);
  for (int i = 0; i < nm; i++) {
    in.nuclides.push_back(absorber("n" + std::to_string(i), c.logreal(0.1, 10)));
    in.materials.push_back({"m" + std::to_string(i), c.logreal(0.15, 3) / g.scale / in.nuclides.back().neutron->capture[0], {{in.nuclides.back().name, c.logreal(0.1, 10)}}});
  }
  for (auto& r : in.regions) if (!r.is_void) r.material = in.materials[c.below(nm)].name;
  V3 d{1, 0, 0}; size_t best = 0; double best_s = 0;
  for (int k = 0; k < 6; k++) { // prefer rays that cross several regions
    V3 e = k == 0 ? gen_dir(c) : (g.offset + gen_dir(c) * (g.scale * c.uniform(0, 1)) - in.pos).unit();
    bool ok = true; auto t = trace(in, in.pos, V(D(e)), g.scale, 1e-6, &ok);
    double sc = t.size() + c.uniform(0, 0.5);
    if (ok && (k == 0 || sc > best_s)) { d = e; best = t.size(); best_s = sc; }
  }
  (void)best;
  in.direction_xml = dir_xml(d);
  for (auto& s : in.surfaces) in.tallies.push_back(Tally{"t" + s.name, s.name});
  for (auto& t : in.tallies) { bool used = false; for (auto& r : in.regions) for (auto& s : r.sides) used |= in.surfaces[s.first].name == t.surface; if (!used) t.surface = in.surfaces[0].name; }
  if (c.chance(1, 2)) in.tracking = "cell delta";
  bool clear = true;
  auto tr = trace(in, in.pos, V(D(d)), g.scale, 1e-6, &clear);
  if (!clear) c.discard();
  std::map<std::string, double> want;
  double tau = 0; Ld at = 0;
  for (auto& x : tr) {
    for (auto& m : in.materials) if (m.name == in.regions[x.from].material) for (auto& n : in.nuclides) if (n.name == m.nuclides[0].first) tau += (double)(x.at - at) * m.aden * n.neutron->capture[0];
    at = x.at;
    want[in.surfaces[x.surface].name] += std::exp(-tau);
  }
  in.histories = 250;
  c.note(in.xml());
  uint64_t seed = c.seed();
  std::string last;
  try {
  pbt::confirm(c, "beam through absorbing regions", c.thorough ? 600 : 150, [&](int round, uint64_t n) {
    std::vector<std::vector<double>> v(in.tallies.size());
    for (uint64_t k = 0; k < n; k++) { in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000; auto s = solve(in); for (size_t t = 0; t < v.size(); t++) v[t].push_back(s.sum[t][0] / in.histories); }
    double best = 1;
    for (size_t t = 0; t < v.size(); t++) {
      double w = want[in.tallies[t].surface], tot = 0; for (double y : v[t]) tot += y * in.histories;
      if (w * in.histories * n < 300 && tot < 900) continue;
      double p = mean_p(v[t], w);
      if (p < best) { best = p; last = cat("surface ", in.tallies[t].surface, ": ", tot / n / in.histories, " crossings per history, expected ", w); }
    }
    return std::min(1., best * in.tallies.size());
  });
  } catch (pbt::Failure& f) { throw pbt::Failure{f.msg + "\n" + last}; }
  c.evals(150 * 250);
  c.label(cat("crossings ", tr.size()));
  c.nontrivial(tr.size() > 1 && tau > 0.05);
}
PBT_MAIN((pbt::Property{"C12",
  "Generated multigroup problems (1-12 regions of spheres, planes and cylinders, voids, 1-3 groups, nuclides and materials, capture, scatter, subcritical fission, photons at times, monodirectional, isotropic and isotropic-flux sources, both tracking methods). currents: mean of every tally bin over 120 runs of 250 histories with random seeds against the same number of histories of an independently written analog walk (exponential free path region by region, exact ray-surface distances, own generator); ce_currents: the same for continuous-energy data (point tables, free-gas and thermal scattering, subcritical fission, a temperature per region at times) over 100 runs of 200; beam: absorbing regions, every surface count against exp(-optical thickness) of the ideal line. Non-trivial when the walk scores (currents), when the beam crosses several surfaces through matter (beam).",
  {"Bins with fewer than 300 expected counts are pooled."},
  {{"currents", currents, 480, 1920, false, 120}, {"ce_currents", ce_currents, 240, 1000, false, 120}, {"beam", beam, 900, 3600, false, 60}}}))
