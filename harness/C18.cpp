#include "ceworld.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static void tables(Case& c) {
  Files f;
  CeNuclide n; n.name = "a";
  n.awr = c.chance(1, 2) ? c.uniform(0.5, 1.2) : c.logreal(1, 60);
  CeOpt o; o.tsl = true; o.lo = 1e-11; o.hi = 1e-4; o.consistent = c.chance(1, 2);
  n.neutron = gen_ce(c, o, n.awr);
  if (!n.neutron->tsl) { n.neutron->scatter = Eval{gen_xs(c, {1e-9, 1e-6}, 1), 300}; n.neutron->total.reset(); n.neutron->tsl = gen_tsl(c, n.awr); }
  bool only = c.chance(1, 3); // nothing but scattering
  if (only) { n.neutron->capture.reset(); n.neutron->fission.reset(); n.neutron->total.reset(); }
  if (c.chance(1, 4)) { CeOpt po = o; po.tsl = po.fission = false; n.photon = gen_ce(c, po, n.awr); }
  const CeData& d = *n.neutron; const Tsl& t = *d.tsl;
  double T;
  switch (c.below(5)) {
  case 0: T = c.pick(t.Ts); break;
  case 1: T = t.Ts.front() * c.uniform(0.2, 1); break;
  case 2: T = t.Ts.back() * c.uniform(1, 3); break;
  default: T = t.Ts.front() + (t.Ts.back() - t.Ts.front()) * c.unit();
  }
  Field fl; fl.c = T; V3 x{c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)};
  if (c.chance(1, 2)) { fl.linear = true; fl.g = gen_dir(c) * 40; fl.b = T - fl.g.dot(x); fl.lo = 0; fl.hi = 5000; T = (double)fl.at(x); }
  Input in = ce_ball({n}, f, fl.xml());
  c.note("T ", T, " table ", t.Ts.front(), " to ", t.Ts.back(), " K, ", t.Es.front(), " to ", t.cutoff(), " MeV");
  CeWorld w(in);
  auto nuc = w.w->FindNuclideByName("a");
  bool below = false, inside = T > t.Ts.front() && T < t.Ts.back();
  for (int k = 0; k < 12; k++) {
    double E;
    switch (c.below(6)) {
    case 0: E = c.pick(t.Es); break;
    case 1: E = t.Es.front() * c.logreal(1e-3, 1); break;
    case 2: E = t.cutoff() * (1 - c.logreal(1e-12, 1e-2)); break;
    case 3: E = t.cutoff() * c.logreal(1, 10); break;
    default: E = t.Es.front() * std::pow(t.cutoff() / t.Es.front(), c.unit());
    }
    bool neutron = !n.photon || c.chance(2, 3);
    if (ce_edge(n, neutron, E, T)) continue;
    Particle p = w.at(x, {1, 0, 0}, E, neutron, 1);
    Ld want = ce_total(n, neutron, E, T); double got = nuc->GetTotal(p);
    bool th = tsl_valid(d, E, neutron);
    // cancellation between orders of the expansion
    Ld mag = want;
    if (th) { mag = 0; for (size_t i = 0; i < t.Es.size(); i++) for (size_t j = 0; j < t.Ts.size(); j++) { Ld s = 0; for (size_t q = 0; q < t.S.size(); q++) s += std::fabs((Ld)t.S[q] * t.E[i][q] * t.T[j][q]); mag = std::max(mag, s); } }
    c.check(std::fabs(got - want) <= 1e-10L * mag, cat(neutron ? "neutron" : "photon", " total at E=", E, " (cutoff ", t.cutoff(), ") T=", T, " is ", got, ", expected ", (double)want));
    if (th) {
      below = true;
      Ld maj = t.majorant.at(E) + (d.capture ? d.capture->xs.at(E) : 0) + (d.fission ? d.fission->xs.at(E) : 0);
      double gm = nuc->GetMajorant(p);
      c.check(std::fabs(gm - maj) <= 1e-10L * maj, cat("majorant at E=", E, " below the cutoff is ", gm, ", expected ", (double)maj));
      // at the table's own grid points the expansion itself
    }
    c.label(!neutron ? "photon" : !th ? "at or above the cutoff" : E < t.Es.front() ? "below the lowest energy" : T < t.Ts.front() ? "below the lowest temperature" : T > t.Ts.back() ? "above the highest temperature" : "inside");
    c.evals(1);
  }
  c.nontrivial(below && inside);
}
// several tables in one world, asked again and again at few energies and
// places: no answer depends on what was asked before
static void revisited(Case& c) {
  Files f; std::vector<CeNuclide> ns; int nn = c.range(1, 3);
  for (int i = 0; i < nn; i++) {
    CeNuclide n; n.name = std::string(1, (char)('a' + i)); n.awr = c.chance(1, 2) ? c.uniform(0.5, 1.2) : c.logreal(1, 60);
    if (i > 0 && c.chance(1, 2)) { n = ns[0]; n.name = std::string(1, (char)('a' + i)); for (auto& s : n.neutron->tsl->S) s *= c.uniform(0.5, 0.9); ns.push_back(n); continue; } // the same grids
    n.neutron = CeData{}; n.neutron->scatter = Eval{gen_xs(c, {1e-9, 1e-6}, 1), 300}; n.neutron->tsl = gen_tsl(c, n.awr);
    if (c.chance(1, 2)) n.neutron->capture = Eval{gen_xs(c, {1e-10, 1e-8, 1e-6}, 1), 300};
    ns.push_back(n);
  }
  double Ta = c.uniform(200, 600), Tb = c.uniform(200, 900);
  Field fl; V3 g = gen_dir(c); fl.linear = true; fl.g = g * ((Tb - Ta) / 4); fl.b = (Ta + Tb) / 2; fl.lo = 0; fl.hi = 5000;
  std::vector<V3> xs; int nx = c.range(1, 4); for (int i = 0; i < nx; i++) xs.push_back(g * c.uniform(-2, 2) + gen_dir(c) * 0.3);
  std::vector<double> Es; int ne = c.range(1, 3); double cut = 1e300; for (auto& n : ns) cut = std::min(cut, n.neutron->tsl->cutoff());
  for (int i = 0; i < ne; i++) Es.push_back(c.chance(1, 4) ? c.pick(ns[0].neutron->tsl->Es) : cut * (c.chance(1, 6) ? c.uniform(1, 3) : c.logreal(1e-4, 0.99)));
  Input in = ce_ball(ns, f, fl.xml());
  CeWorld w(in);
  std::vector<std::shared_ptr<const Nuclide>> nu; for (auto& n : ns) nu.push_back(w.w->FindNuclideByName(n.name));
  std::string log; int below = 0; std::set<std::string> seen; bool again = false;
  for (int k = 0; k < 30; k++) {
    int i = c.below(nn), x = c.below(nx), e = c.below(ne), what = c.below(3);
    double E = Es[e], T = (double)fl.at(xs[x]);
    const CeData& d = *ns[i].neutron;
    if (ce_edge(ns[i], true, E, T)) continue;
    again |= !seen.insert(cat(e)).second;
    Particle p = w.at(xs[x], {1, 0, 0}, E, true, 1);
    if (what == 2) { nu[i]->GetMajorant(p); continue; }
    auto order = [&] { Ld mag = 0; auto& t = *d.tsl; for (size_t a = 0; a < t.Es.size(); a++) for (size_t j = 0; j < t.Ts.size(); j++) { Ld s = 0; for (size_t q = 0; q < t.S.size(); q++) s += std::fabs((Ld)t.S[q] * t.E[a][q] * t.T[j][q]); mag = std::max(mag, s); } return mag; };
    Ld want = ce_total(ns[i], true, E, T), got = nu[i]->GetTotal(p);
    Ld tol = 1e-10L * (tsl_valid(d, E, true) ? order() + want : want);
    c.check(std::fabs(got - want) <= tol, cat("query ", k, ": total of ", ns[i].name, " at E=", E, " T=", T, " is ", (double)got, ", expected ", (double)want));
    below += tsl_valid(d, E, true); c.evals(1);
  }
  c.nontrivial(below > 2 && again && nn + nx > 2);
}
// tables whose incident energies or betas do not increase from one partition
// (or row) to the next are not accepted; the intact ones are
static void grids(Case& c) {
  Files f; CeNuclide n; n.name = "a"; n.awr = c.logreal(1, 60);
  n.neutron = CeData{}; n.neutron->scatter = Eval{gen_xs(c, {1e-9, 1e-6}, 1), 300}; n.neutron->tsl = gen_tsl(c, n.awr);
  Field fl; fl.c = 300;
  auto accepted = [&](const CeNuclide& m) { Files g; Input in = ce_ball({m}, g, fl.xml()); return pbt::in_child([&] { CeWorld w(in); }).empty(); };
  c.check(accepted(n), "an intact thermal library is refused");
  Tsl& t = *n.neutron->tsl;
  // the grid all partitions together make, as places to write to
  bool beta = c.chance(1, 2);
  std::vector<double*> at;
  if (beta) for (auto& p : t.ap) for (auto& b : p.betas) at.push_back(&b);
  else for (auto& p : t.bp) for (auto& e : p.Es) at.push_back(&e);
  if (at.size() < 2) c.discard();
  size_t i = 1 + c.below((int)at.size() - 1);
  bool equal = c.chance(1, 3);
  if (equal) *at[i] = *at[i - 1];
  else if (c.chance(1, 2)) std::swap(*at[i], *at[c.below((int)i)]);
  else *at[i] = *at[i - 1] * c.uniform(0.1, 0.99);
  bool border = false; { size_t k = 0; if (beta) for (auto& p : t.ap) { k += p.betas.size(); border |= k == i; } else for (auto& p : t.bp) { k += p.Es.size(); border |= k == i; } }
  c.label(cat(beta ? "betas" : "incident energies", equal ? ", equal" : ", decreasing", border ? " between partitions" : " within a partition"));
  c.check(!accepted(n), cat("a thermal library whose ", beta ? "betas" : "incident energies", " do not increase at entry ", i, " of ", at.size(), " is accepted"));
  c.evals(2); c.nontrivial(true);
}
PBT_MAIN((pbt::Property{"C18",
  "Generated thermal tables (2-6 energies, 1-4 temperatures, expansions of order 1-3, one in ten up to 60 energies, 20 temperatures and order 10, written as files) in nuclides with or without capture, fission, total table and photon data; 12 energies per case (grid points, between, below the lowest, at, just below and above the cutoff) at a temperature on, between, below and above the tabulated ones (constant or gradient); total against independent bilinear interpolation of the expanded table plus the other reactions, majorant against the interpolated majorant table. revisited: 30 questions about 1-3 thermal nuclides (at times on the same grids) at few energies and places of a gradient, each again and again. grids: an intact library is accepted, the same one with an incident energy or beta not above the one before it (within a partition or between two) is not. Non-trivial when the temperature lies strictly inside the table and the energy below the cutoff.",
  {},
  {{"tables", tables, 18000, 120000}, {"revisited", revisited, 6000, 40000}, {"grids", grids, 800, 6000}}}))
