#include "glue.hpp"
#include "Bins.hpp"
#include "FixedSource.hpp"
#include "Estimator.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static Axis gen_axis(Case& c, bool cosine, bool dyadic_only, bool large = false) {
  Axis a;
  a.kind = (Axis::Kind)c.below(4);
  double lo = cosine ? -1 : 0, hi = cosine ? 1 : 20;
  if (a.kind == Axis::boundaries) {
    int n = c.range(1, c.chance(1, 12) ? 250 : 7);
    std::set<double> s;
    for (int i = 0; i < n; i++) s.insert(dyadic_only ? dyadic(c, lo - 1, hi) : c.chance(1, 8) ? c.sign() * c.logreal(1e-12, 1e12) : c.real(lo - 0.5, hi));
    if (large && c.chance(1, 1500)) { pbt::Rng r(c.seed()); n = c.chance(1, 2) ? c.range(250, 5000) : c.range(60000, 80000); for (int i = 0; i < n; i++) s.insert(lo + (hi - lo) * (int)(r.unit() * (1 << 24)) / (1 << 24)); }
    a.bounds.assign(s.begin(), s.end());
  }
  if (a.kind == Axis::linspace) {
    if (dyadic_only) { a.min = dyadic(c, lo - 1, hi); a.bins = 1 << c.below(large && c.chance(1, 1500) ? 18 : 5); a.max = a.min + a.bins * std::ldexp(1., c.range(-4, 3)); }
    else { a.min = c.real(lo - 1, hi); a.max = a.min + (c.chance(1, 6) ? c.logreal(1e-9, 1e9) : c.uniform(1e-3, hi - lo)); a.bins = c.range(1, c.chance(1, 10) ? 300 : 12); }
    if (!(a.max > a.min)) a.max = a.min + 1;
    if (large && !dyadic_only && c.chance(1, 1500)) { a.bins = c.range(300, 100000); a.max = a.min + c.uniform(1, 20); }
  }
  if (a.kind == Axis::logspace) {
    a.min = c.real(-9, 2); a.max = a.min + c.uniform(0.1, 9); a.bins = c.range(1, c.chance(1, 10) ? 300 : 12);
    if (c.chance(1, 2)) a.base = c.chance(1, 2) ? 2 : c.uniform(1.2, 20);
  }
  return a;
}
static double gen_value(Case& c, const Axis& a, bool exact) {
  auto e = a.edges();
  if (!e.empty() && c.chance(1, 2)) {
    double b = (double)e[c.below(e.size())];
    switch (c.below(3)) {
    case 0: return b;
    case 1:
      if (exact && a.kind == Axis::linspace) return c.chance(1, 2) ? std::nextafter(a.min, -1e300) : std::nextafter(a.max, 1e300);
      return exact ? std::nextafter(b, c.sign() * 1e300) : b + c.sign() * c.logreal(1e-7, 1) * (std::fabs(b) + 1e-3);
    default: return (b + (double)e[c.below(e.size())]) / 2;
    }
  }
  if (exact && a.kind == Axis::linspace) return dyadic(c, a.min - 2, a.max + 2);
  switch (c.below(4)) {
  case 0: return c.sign() * c.logreal(1e-30, 1e30);
  case 1: return c.real(-2, 2);
  case 2: return c.range(0, 30);
  default: return c.logreal(1e-11, 30);
  }
}
static std::vector<double> numbers(const std::string& s) {
  std::vector<double> v;
  std::istringstream in(s);
  std::string tok;
  while (std::getline(in, tok, ',')) { std::istringstream t(tok); double d; if (t >> d) v.push_back(d); }
  return v;
}
static void check_axis(Case& c, const Axis& a, bool exact) {
  Doc d("<minimc><x>" + a.xml() + "</x></minimc>");
  auto b = Bins::Create(d.root.child("x").first_child());
  c.note(a.kind ? a.xml() : "no axis");
  c.check(b->size() == a.size(), cat("axis has ", b->size(), " bins, expected ", a.size()));
  auto edges = a.edges();
  auto text = b->to_string();
  if (a.kind == Axis::none) c.check(text == "none", "absent axis prints " + text);
  else {
    auto v = numbers(text);
    c.check(v.size() == edges.size(), cat("axis prints ", v.size(), " boundaries, expected ", edges.size(), ": ", text));
    for (size_t i = 0; i < v.size(); i++) c.check(std::fabs(v[i] - (double)edges[i]) <= 2e-6 * std::fabs((double)edges[i]) + 1e-12 * std::fabs(a.max - a.min), cat("boundary ", i, " is printed as ", v[i], ", in force is ", (double)edges[i]));
  }
  std::set<size_t> hit;
  int n = 40;
  for (int i = 0; i < n; i++) {
    double v = gen_value(c, a, exact);
    if (!exact && a.near_edge(v)) continue;
    // the outer bounds decide as given whatever the rounding of the spacing
    size_t want = a.index(v), got = b->GetIndex(v);
    hit.insert(want);
    c.check(got == want, cat("value ", v, " goes to bin ", got, " of ", a.size(), ", expected ", want));
  }
  c.evals(n);
  static const char* kn[] = {"none", "linspace", "logspace", "boundaries"};
  c.label(kn[a.kind]);
  c.nontrivial(a.kind && hit.size() >= 2);
}
static void axis(Case& c) { check_axis(c, gen_axis(c, c.chance(1, 3), false, true), false); }
static void exact_edges(Case& c) {
  Axis a = gen_axis(c, c.chance(1, 3), true, true);
  if (a.kind == Axis::none || a.kind == Axis::logspace) a.kind = Axis::linspace, a.min = -1, a.bins = 4, a.max = 1;
  // the bounds given in the input decide exactly
  check_axis(c, a, true);
}
// 1 is exactly base^0 for every base: decided even on logarithmic axes
static void log_unity(Case& c) {
  Axis a;
  a.kind = Axis::logspace;
  bool low = c.chance(1, 2);
  a.min = low ? 0 : -c.uniform(0.1, 9); a.max = low ? c.uniform(0.1, 9) : 0; a.bins = c.range(1, 12);
  if (c.chance(1, 2)) a.base = c.uniform(1.2, 20);
  c.note(a.xml());
  Doc d("<minimc><x>" + a.xml() + "</x></minimc>");
  auto b = Bins::Create(d.root.child("x").first_child());
  size_t want = low ? 1 : a.bins + 1;
  c.check(b->GetIndex(1) == want, cat("value 1, exactly the ", low ? "first" : "last", " boundary, goes to bin ", b->GetIndex(1), ", expected ", want));
  c.check(b->GetIndex(0) == 0 && b->GetIndex(-c.logreal(1e-9, 1e9)) == 0, "a non-positive value is not below the first boundary");
  c.evals(3);
  c.nontrivial();
}
static void flattened(Case& c) {
  Tally t;
  t.energy = gen_axis(c, false, false);
  t.cosine = gen_axis(c, true, false);
  t.ref = gen_dir(c) * (c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e2));
  std::string bx = t.bins_xml();
  Doc d("<minimc>" + bx + "</minimc>");
  ParticleBins pb{d.root.child("bins")};
  c.note(bx.empty() ? "no bins" : bx);
  c.check(pb.size() == t.size(), cat("combined size is ", pb.size(), ", expected ", t.size()));
  auto text = pb.to_string();
  auto ce = text.find("cosine\n------\n"), ee = text.find("energy\n------\n");
  c.check(ce == 0 && ee != std::string::npos, "report of the bins lacks an axis: " + text);
  auto ct = numbers(text.substr(14, ee - 14)), et = numbers(text.substr(ee + 14));
  c.check(ct.size() == t.cosine.edges().size() && et.size() == t.energy.edges().size(), "report of the bins lists the wrong number of boundaries: " + text);
  for (size_t i = 0; i < ct.size(); i++) c.check(std::fabs(ct[i] - (double)t.cosine.edges()[i]) <= 2e-6 * std::fabs(ct[i]) + 1e-6 * std::fabs(t.cosine.max - t.cosine.min), "cosine boundaries misprinted: " + text);
  for (size_t i = 0; i < et.size(); i++) c.check(std::fabs(et[i] - (double)t.energy.edges()[i]) <= 2e-6 * std::fabs(et[i]) + 1e-6 * std::fabs(t.energy.max - t.energy.min), "energy boundaries misprinted: " + text);
  std::map<size_t, std::pair<size_t, size_t>> slot;
  V3 u = t.ref.unit();
  int n = 30;
  std::set<size_t> cs, es;
  for (int i = 0; i < n; i++) {
    bool mg = c.chance(1, 3);
    Energy e = ContinuousEnergy{1};
    double ev;
    if (mg) { Group g = 1 + c.below(30); ev = g; e = g; }
    else { ev = std::fabs(gen_value(c, t.energy, false)); e = ev; }
    V3 g0 = gen_dir(c);
    if (c.chance(1, 3)) g0 = c.chance(1, 2) ? u : u * -1;
    Direction dir = D(g0);
    V3 g = V(dir);
    Ld mu = (Ld)g.x * u.x + (Ld)g.y * u.y + (Ld)g.z * u.z;
    bool edge = false;
    for (Ld b : t.cosine.edges()) if (std::fabs(mu - b) < 1e-12L) edge = true;
    if (edge || t.cosine.near_edge(mu) || t.energy.near_edge(ev)) continue;
    Particle p{Point{c.real(-3, 3), 0, 0}, dir, e, Particle::Type::neutron, 1};
    size_t ci = t.cosine.kind ? t.cosine.index(mu) : 0, ei = t.energy.index(ev);
    size_t got = pb.GetIndex(p);
    cs.insert(ci); es.insert(ei);
    std::string w = cat("energy ", ev, " cosine ", (double)mu, " -> slot ", got, ", cosine bin ", ci, ", energy bin ", ei);
    c.check(got < t.size(), w + ": outside the tally");
    auto ins = slot.insert({got, {ci, ei}});
    c.check(ins.first->second == std::make_pair(ci, ei), w + cat(": slot shared with cosine bin ", ins.first->second.first, ", energy bin ", ins.first->second.second));
    c.check(got == ci * t.energy.size() + ei, w + cat(", expected slot ", ci * t.energy.size() + ei));
  }
  c.evals(n);
  if (t.cosine.kind && t.energy.kind) c.label("both axes");
  c.nontrivial(slot.size() >= 2);
}
// through a solved run: every score lands in the bin of its cosine and energy
static void solved(Case& c) {
  Input in;
  in.groups = 12;
  uint64_t g = 1 + c.below(12);
  in.energy = std::to_string(g);
  in.nuclides.push_back(absorber("n", 1e-9, 12));
  in.materials.push_back({"m", 1e-9, {{"n", 1}}});
  Surf s; s.name = "s"; s.r = 2;
  in.surfaces = {s};
  Region a; a.name = "in"; a.material = "m"; a.sides = {{0, -1}};
  Region b; b.is_void = true; b.sides = {{0, 1}};
  in.regions = {a, b};
  V3 dir = gen_dir(c);
  in.direction_xml = dir_xml(dir * c.logreal(0.1, 10));
  in.histories = c.range(1, 20);
  in.threads = c.range(1, 3);
  for (int i = 0; i < c.range(1, 3); i++) {
    Tally t;
    t.name = cat("t", i); t.surface = "s";
    t.energy = gen_axis(c, false, false); t.cosine = gen_axis(c, true, false); t.ref = gen_dir(c) * c.logreal(0.1, 10);
    in.tallies.push_back(t);
  }
  c.note(in.xml());
  Doc d(in.xml());
  FixedSource f(d.root);
  auto r = f.Solve();
  bool decided = false;
  for (auto& t : in.tallies) {
    Ld mu = dir.unit().dot(t.ref.unit());
    bool edge = t.energy.near_edge(g);
    for (Ld e : t.cosine.edges()) if (std::fabs(mu - e) < 1e-12L) edge = true;
    if (edge) continue;
    decided = true;
    size_t want = (t.cosine.kind ? t.cosine.index(mu) : 0) * t.energy.size() + t.energy.index(g);
    for (size_t i = 0; i < t.size(); i++) {
      double v = r.FindEstimatorByName(t.name).GetScore(i, 1.0);
      c.check(v == (i == want ? in.histories : 0), cat("tally ", t.name, " slot ", i, " holds ", v, "; all ", in.histories, " particles belong in slot ", want));
    }
  }
  c.evals(in.histories);
  c.nontrivial(decided);
}
PBT_MAIN((pbt::Property{"C08",
  "axis/exact_edges: a generated axis (absent, linear, logarithmic with optional base, explicit boundaries over 24 decades) with 40 values at, next to, between and far from its boundaries, negative and huge included; non-trivial when at least two bins were hit. exact_edges uses dyadic boundaries where double arithmetic is exact, so values on a boundary are decided. flattened: two axes and 30 particles; non-trivial when two slots were hit. solved: the same through a run.",
  {"On linear and logarithmic axes, values within a relative 1e-9 of a computed interior boundary are not decided (except where arithmetic is exact).", "Logarithmic bases are larger than one."},
  {{"axis", axis, 200000, 2000000}, {"exact_edges", exact_edges, 100000, 1000000}, {"log_unity", log_unity, 25000, 200000}, {"flattened", flattened, 150000, 1000000}, {"solved", solved, 7500, 40000}}}))
