#include "ceworld.hpp"
#include "FixedSource.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
// A beam whose first collision ends it: scattering moves the energy away from
// the only one at which capture is not overwhelming. Each crossing is reached
// with probability exp(-integral of the local cross section along the line).
static void attenuation(Case& c) {
  Input in; GeomOpt g; Files f;
  g.scale = c.logreal(0.1, 10); g.max_depth = 3; g.coincident = false;
  if (c.chance(1, 3)) g.offset = V3{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)} * g.scale;
  gen_regions(c, in, g);
  if (!gen_start(c, in, g)) c.discard();
  double tmin = c.chance(1, 3) ? c.uniform(1, 50) : c.uniform(50, 400), tmax = tmin * c.logreal(4, 600);
  bool tsl = c.chance(1, 4);
  if (tsl) { tmin = c.uniform(150, 300); tmax = c.uniform(600, 1050); }
  // heavy target, slow neutron: the cross section follows the square root of the temperature
  double big = c.chance(1, 3) ? 1 : c.logreal(1, 240), E0 = kBoltzmann * tmax / big * (c.chance(7, 8) ? c.logreal(1e-4, 0.3) : c.logreal(0.3, 1000));
  std::vector<CeNuclide> ns;
  int nn = c.range(1, 3);
  std::optional<Tsl> t0; double awr0 = 0;
  if (tsl) { awr0 = c.logreal(0.9, 20); t0 = gen_tsl(c, awr0); E0 = t0->bp[0].Es[0]; if (E0 >= t0->cutoff()) c.discard(); }
  for (int i = 0; i < nn; i++) {
    CeNuclide n; n.name = std::string(1, (char)('a' + (i * 7 + 2) % 26));
    n.awr = tsl && i == 0 ? awr0 : c.chance(1, 3) ? c.uniform(0.9, 1) : c.uniform(1, big);
    n.neutron = CeData{};
    CeData& d = *n.neutron;
    double Te = c.chance(1, 2) ? c.uniform(tmin, tmax) : c.uniform(20, 2000);
    std::vector<double> grid = {E0 * 1e-3, E0 * (1 - 1e-7), E0, E0 * (1 + 1e-7), E0 * 1e3};
    d.scatter = Eval{gen_xs(c, grid, 1), Te};
    d.capture = Eval{Tab1{grid, {1e7, 1e7, 0, 1e7, 1e7}}, Te};
    if (tsl && i == 0) d.tsl = t0;
    if (c.chance(1, 2)) { Eval t{Tab1{grid, {}}, Te}; for (int k = 0; k < 5; k++) t.xs.y.push_back(d.scatter->xs.y[k] + d.capture->xs.y[k]); d.total = t; }
    ns.push_back(n);
  }
  in.nuclides_xml = ce_xml(ns, f);
  int nm = c.range(1, 3);
  double Tm = (tmin + tmax) / 2;
  for (int i = 0; i < nm; i++) {
    Mat m; m.name = "m" + std::to_string(i);
    int k = c.range(1, nn), st = c.below(nn);
    for (int j = 0; j < k; j++) m.nuclides.push_back({ns[(st + j) % nn].name, c.logreal(0.1, 10)});
    m.aden = 1; m.aden = c.logreal(0.2, 3) / g.scale / (double)macro(ns, m, E0, Tm);
    in.materials.push_back(m);
  }
  for (auto& r : in.regions) if (!r.is_void) r.material = in.materials[c.below(nm)].name;
  Field fl = gen_temperatures(c, in, tmin, tmax, c.chance(7, 8), c.chance(1, 3));
  V3 d{1, 0, 0}; double best_s = 0;
  for (int k = 0; k < 6; k++) {
    V3 e = k == 0 ? gen_dir(c) : k < 3 && fl.linear ? (fl.g * (k == 1 ? 1 : -1) + gen_dir(c) * (fl.g.norm() * c.uniform(0, 0.3))).unit() : (g.offset + gen_dir(c) * (g.scale * c.uniform(0, 1)) - in.pos).unit();
    bool ok = true; auto t = trace(in, in.pos, V(D(e)), g.scale, 1e-6, &ok);
    double along = 0; if (fl.linear && !t.empty()) along = std::fabs(fl.g.dot(V(D(e)))) * (double)t.back().at / (tmax - tmin);
    double sc = t.size() * 0.5 + 4 * along + c.uniform(0, 0.5);
    if (ok && (k == 0 || sc > best_s)) { d = e; best_s = sc; }
  }
  in.direction_xml = dir_xml(d); in.energy = num(E0);
  for (auto& s : in.surfaces) in.tallies.push_back(Tally{"t" + s.name, s.name});
  use_surfaces(in);
  in.tracking = "cell delta";
  bool clear = true;
  V3 u = V(D(d));
  auto tr = trace(in, in.pos, u, g.scale, 1e-6, &clear);
  if (!clear || tr.empty()) c.discard();
  if (fl.linear && c.chance(1, 2)) { // the whole range of temperatures on the way
    double L = (double)tr.back().at * 1.01; bool rise = c.chance(1, 2); V3 side = gen_dir(c); side = side - u * side.dot(u);
    fl.g = (u * (rise ? 1 : -1) + side) * ((tmax - tmin) / L); fl.b = (rise ? tmin : tmax) - fl.g.dot(in.pos);
    fl.lo = tmin * (c.chance(1, 2) ? 1 - 1e-6 : c.uniform(0.5, 0.99)); fl.hi = tmax * (c.chance(1, 2) ? 1 + 1e-6 : c.uniform(1.01, 1.5));
    in.temperature_xml = fl.xml();
  }
  std::map<std::string, double> want;
  Ld tau = 0, at = 0; double lo = 1e300, hi = 0, vary = 1;
  for (auto& x : tr) {
    const Mat* m = mat_of(in, x.from);
    int n = 400; Ld h = (x.at - at) / n; double a = 1e300, b = 0;
    for (int i = 0; i < n; i++) { // midpoints: the integrand may jump by a percent
      Ld s = at + h * (i + 0.5L); V3 q = in.pos + u * (double)s;
      double T = (double)temp_at(in, fl, x.from, q);
      Ld v = macro(ns, *m, E0, T); tau += v * h;
      lo = std::min(lo, T); hi = std::max(hi, T); a = std::min(a, (double)v); b = std::max(b, (double)v);
    }
    vary = std::max(vary, b / a);
    at = x.at;
    want[in.surfaces[x.surface].name] += std::exp(-(double)tau);
  }
  in.histories = 250;
  c.note("E0 ", E0, " temperatures along the line ", lo, " to ", hi, ", thickness ", (double)tau, "\n", in.xml());
  uint64_t seed = c.seed(); std::string last;
  uint64_t runs = c.thorough ? 600 : 120;
  try {
  pbt::confirm(c, "beam through regions of varying temperature", runs, [&](int round, uint64_t n) {
    std::vector<std::vector<double>> v(in.tallies.size());
    for (uint64_t k = 0; k < n; k++) { in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000; auto s = solve(in); for (size_t t = 0; t < v.size(); t++) v[t].push_back(s.sum[t][0] / in.histories); }
    double best = 1;
    for (size_t t = 0; t < v.size(); t++) {
      double w = want[in.tallies[t].surface], tot = 0; for (double y : v[t]) tot += y * in.histories;
      if (w * in.histories * n < 300 && tot < 900) continue;
      double p = mean_p(v[t], w);
      if (p < best) { best = p; last = cat("surface ", in.tallies[t].surface, ": ", tot / n / in.histories, " crossings per history, expected ", w); }
    }
    return std::min(1., best * in.tallies.size());
  });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last}; }
  c.evals(runs * 250);
  if (tsl) c.label("thermal scattering");
  for (auto& r : in.regions) if (r.temperature) c.label("region with its own temperature");
  c.label(vary > 2 ? "cross section varies more than twofold" : vary > 1.2 ? "cross section varies" : "cross section varies little");
  c.nontrivial(vary > 1.1 && tau > 0.1);
}
// where the temperature is uniform both tracking methods expect the same
static void agree(Case& c) {
  Input in; GeomOpt g; Files f;
  double T = c.uniform(100, 1000);
  bool tsl = c.chance(1, 3);
  auto ns = gen_ce_nuclides(c, tsl, !tsl, T);
  double E0 = kBoltzmann * T * c.logreal(0.1, 300);
  if (tsl && !ns[0].neutron->tsl) tsl = false;
  if (tsl) {
    // nothing may scatter to an energy whose table is out of reach: end the history there
    for (auto& n : ns) {
      CeData& d = *n.neutron; d.total.reset(); d.fission.reset();
      if (!d.scatter) d.scatter = Eval{Tab1{{E0}, {1}}, T};
    }
    E0 = ns[0].neutron->tsl->bp[0].Es[0]; if (E0 >= ns[0].neutron->tsl->cutoff()) c.discard();
    T = c.uniform(200, 1000);
    for (auto& n : ns) n.neutron->capture = Eval{Tab1{{E0 * (1 - 1e-7), E0, E0 * (1 + 1e-7)}, {1e6, 0.1, 1e6}}, T};
  }
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, T)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  Field fl; fl.c = T; in.temperature_xml = fl.xml();
  if (c.chance(1, 3)) for (auto& r : in.regions) if (!r.is_void && c.chance(1, 2)) r.temperature = c.uniform(200, 1000);
  in.histories = 250;
  c.note(in.xml());
  uint64_t seed = c.seed(); std::string last; bool any = false;
  uint64_t runs = c.thorough ? 400 : 100;
  try {
  pbt::confirm(c, "delta tracking against surface tracking", runs, [&](int round, uint64_t n) {
    ChunkTest T(in);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + 2 * k)) % 2000000000; in.tracking = "cell delta";
      auto a = solve(in);
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + 2 * k + 1)) % 2000000000; in.tracking = "surface";
      auto b = solve(in);
      T.push(T.a, a.sum); T.push(T.b, b.sum);
      for (auto& t : b.sum) for (double y : t) any |= y > 0;
    }
    double p = T.p(); last = T.worst; return p;
  });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last + " (reference: surface tracking)"}; }
  c.evals(runs * 500);
  if (tsl) c.label("thermal scattering");
  c.nontrivial(any);
}
// everything against an independent walk in the varying field
static void transport(Case& c) {
  Input in; GeomOpt g; Files f;
  bool tsl = c.chance(1, 4);
  double tmin = tsl ? c.uniform(200, 400) : c.uniform(50, 400), tmax = tsl ? c.uniform(600, 1050) : tmin * c.uniform(1.5, 10);
  auto ns = gen_ce_nuclides(c, tsl, true, (tmin + tmax) / 2); for (auto& n : ns) if (n.neutron->tsl) gains(c, *n.neutron->tsl);
  double E0 = kBoltzmann * tmax * c.logreal(0.05, 30);
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, (tmin + tmax) / 2)) c.discard();
  if (in.direction_xml.compare(0, 9, "<constant") == 0) { bool clear = true; pbt::Rng r(1); trace(in, in.pos, ref_dir(r, in.direction_xml), g.scale, 1e-6, &clear); if (!clear) c.discard(); }
  bool linear = c.chance(5, 6);
  Field fl = gen_temperatures(c, in, tmin, tmax, linear, c.chance(1, 3));
  in.tracking = linear || c.chance(1, 2) ? "cell delta" : "surface";
  in.histories = 150;
  c.note(in.xml());
  uint64_t seed = c.seed(); std::string last; bool any = false;
  Walk ref(in, ns, fl, g.scale);
  uint64_t runs = c.thorough ? 400 : 100;
  try {
  pbt::confirm(c, "expected currents against the reference walk", runs, [&](int round, uint64_t n) {
    ChunkTest T(in); pbt::Rng r(pbt::mix64(seed) + round);
    for (uint64_t k = 0; k < n; k++) {
      in.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + k)) % 2000000000;
      auto s = solve(in);
      T.push(T.a, s.sum);
      std::vector<std::vector<double>> w; for (auto& t : in.tallies) w.emplace_back(t.size(), 0.);
      for (int h = 0; h < in.histories; h++)
        ref.history(r, ref_dir(r, in.direction_xml), E0, [&](int sf, V3 d, double E) { for (size_t t = 0; t < w.size(); t++) if (in.tallies[t].surface == in.surfaces[sf].name) { w[t][bin_of(in.tallies[t], d, E)]++; any = true; } });
      T.push(T.b, w);
    }
    double p = T.p(); last = T.worst; return p;
  });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last}; }
  c.evals(runs * 150);
  if (linear) c.label("gradient");
  if (in.tracking == "surface") c.label("surface tracking");
  for (auto& n : ns) if (n.neutron->fission) c.label("fission data");
  for (auto& n : ns) if (n.neutron->tsl) c.label("thermal scattering");
  c.nontrivial(any && linear);
}
// only delta tracking may be used with a varying global temperature
static void refused(Case& c) {
  Input in; GeomOpt g;
  g.max_depth = 2; gen_regions(c, in, g);
  if (!gen_start(c, in, g)) c.discard();
  in.nuclides = {absorber("a", 1)}; in.materials = {{"m", 1, {{"a", 1}}}};
  for (auto& r : in.regions) if (!r.is_void) r.material = "m";
  in.tallies = {Tally{"t", in.surfaces[in.regions[0].sides[0].first].name}};
  bool own = c.chance(1, 3);
  if (own) for (auto& r : in.regions) if (!r.is_void) r.temperature = c.uniform(100, 400);
  Field f; bool varies = false;
  switch (c.below(4)) {
  case 0: break; // no field
  case 1: f.c = c.uniform(0, 500); in.temperature_xml = f.xml(); break;
  case 2: f.linear = true; f.b = c.uniform(1, 500); f.lo = 0; f.hi = 1000; in.temperature_xml = f.xml(); break;
  default: {
    f.linear = true; f.b = 500; f.lo = 0; f.hi = 1000; varies = true;
    double s = c.logreal(1e-6, 100);
    f.g = c.chance(1, 2) ? gen_dir(c) * s : V3{c.below(3) == 0 ? s : 0., 0, 0};
    if (f.g.norm() == 0) { double v = s * c.sign(); if (c.chance(1, 2)) f.g.y = v; else f.g.z = v; }
    in.temperature_xml = f.xml();
  }
  }
  int tr = c.below(3);
  if (tr) in.tracking = tr == 1 ? "surface" : "cell delta";
  bool want = !(varies && tr != 2);
  c.note(in.xml());
  std::string msg; bool accepted = true;
  auto died = pbt::in_child([&] {
    Doc d(in.xml());
    bool ok = true; std::string what;
    try { FixedSource s(d.root); s.Solve(); } catch (std::exception& e) { ok = false; what = e.what(); }
    if (ok && !want) throw pbt::Failure{"surface tracking of a globally varying temperature was accepted"};
    if (!ok && want) throw pbt::Failure{"a problem that may be tracked was refused: " + what};
    if (!ok && what.empty()) throw pbt::Failure{"refused without a message"};
  }, 10);
  (void)msg; (void)accepted;
  c.check(died.empty(), died);
  c.label(cat(varies ? "varying" : "uniform", tr == 2 ? ", delta" : ", surface"));
  c.nontrivial(varies || f.linear);
}
PBT_MAIN((pbt::Property{"C13",
  "Generated continuous-energy problems with delta tracking in a temperature that varies linearly over the geometry (up to 600-fold), regions with their own temperature at times. attenuation: a beam at the one energy where capture does not overwhelm, so that the first collision ends it, through generated regions; each surface count over 120 runs of 250 histories against exp(-integral of the local macroscopic cross section along the exact line), with free-gas adjusted, unadjusted, table-total and thermal-scattering cross sections. agree: uniform temperature per region, delta against surface tracking, bin by bin. transport: scattering, capture and fission problems against an independent walk in the same field (own majorant, own free-gas sampler). refused: surface tracking accepted exactly when the global field is uniform. Non-trivial when the cross section varies along the line by more than 10% (attenuation), when the tally scores (agree), with a gradient and a score (transport), when the field is a gradient (refused).",
  {"Declared bounds of a field hold in the geometry.", "Bins with fewer than 300 expected counts are pooled.", "The probability that a collision changes the energy by less than 1e-7 is neglected."},
  {{"attenuation", attenuation, 320, 1600, false, 120}, {"agree", agree, 120, 600, false, 120}, {"transport", transport, 120, 600, false, 120}, {"refused", refused, 800, 4000}}}))
