#include "glue.hpp"
#include "Source.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
struct Spec { V3 pos, ref; int kind; bool mg; std::string energy, type; uint64_t group = 1; double E = 1; std::string xml; };
static V3 ref_dir(Case& c, bool unnormalised) {
  V3 d = gen_dir(c);
  if (unnormalised) d = d * (c.chance(1, 2) ? 1 : c.logreal(1e-3, 1e3));
  return d;
}
static Spec gen(Case& c) {
  Spec s;
  s.pos = {c.real(-100, 100), c.real(-100, 100), c.real(-100, 100)};
  s.kind = c.below(3);
  s.ref = ref_dir(c, true);
  s.mg = c.chance(1, 2);
  if (s.mg) {
    s.group = 1 + c.below(300); s.energy = std::to_string(s.group);
    // the schema allows any spelling of a number
    if (c.chance(1, 6)) s.energy += c.chance(1, 2) ? ".0" : "e0"; else if (c.chance(1, 8)) s.energy += "0e-1"; else if (c.chance(1, 8)) s.energy = " +" + s.energy + " ";
    if (s.group % 10 == 0 && c.chance(1, 3)) s.energy = std::to_string(s.group / 10) + "e1";
  }
  else { s.E = c.logreal(1e-11, 30); s.energy = num(s.E); }
  s.type = c.chance(1, 3) ? "photon" : "neutron";
  Input in;
  in.pos = s.pos; in.energy = s.energy; in.type = s.type;
  in.direction_xml = s.kind == 0 ? dir_xml(s.ref) : s.kind == 1 ? "<isotropic/>" : dir_xml(s.ref, "isotropic-flux");
  in.particles = c.chance(1, 2) ? s.type : c.chance(1, 2) ? "neutron photon" : "photon neutron";
  in.groups = s.group + (c.chance(1, 2) ? 0 : c.below(5));
  if (!s.mg) in.nuclides_xml = "<nuclides><continuous/></nuclides>";
  s.xml = in.xml();
  return s;
}
static void values(Case& c) {
  Spec s = gen(c);
  c.note("direction kind ", s.kind, " ref ", s.ref.str(), " position ", s.pos.str(), " energy ", s.energy, " type ", s.type);
  Doc d(s.xml);
  Source src{d.root.child("problemtype").child("fixedsource")};
  Source again{d.root.child("problemtype").child("fixedsource")};
  V3 u = s.ref.unit();
  std::set<uint64_t> firsts;
  std::set<std::pair<double, double>> dirs;
  uint64_t base = c.seed() % 2147483000;
  int n = 20;
  for (int i = 0; i < n; i++) {
    RNG::result_type seed = base + i;
    Particle p = src.Sample(seed);
    V3 q = V(p.GetPosition()), g = V(p.GetDirection());
    c.check(q.x == s.pos.x && q.y == s.pos.y && q.z == s.pos.z, cat("source position is ", q.str()));
    c.check(p.GetType() == (s.type == "neutron" ? Particle::Type::neutron : Particle::Type::photon), "wrong particle type");
    if (s.mg) c.check(std::holds_alternative<Group>(p.GetEnergy()) && std::get<Group>(p.GetEnergy()) == s.group, "wrong group");
    else c.check(std::holds_alternative<ContinuousEnergy>(p.GetEnergy()) && std::get<ContinuousEnergy>(p.GetEnergy()) == s.E, "wrong energy");
    c.check(std::fabs(g.norm() - 1) < 1e-13, "direction is not a unit vector: " + g.str());
    if (s.kind == 0) c.check((g - u).norm() < 1e-14, cat("constant direction is ", g.str(), ", expected ", u.str()));
    if (s.kind == 2) c.check(g.dot(u) >= -1e-13, cat("isotropic-flux direction ", g.str(), " points backwards, cosine ", g.dot(u)));
    c.check(p.IsAlive() && p.event == Particle::Event::birth && !p.current_surface, "a source particle is not a newborn");
    // same seed, same particle (also through another Source object and after other draws)
    Particle r = (i % 2 ? src : again).Sample(seed);
    V3 h = V(r.GetDirection());
    uint64_t f1 = p.rng(), f2 = r.rng();
    c.check(h.x == g.x && h.y == g.y && h.z == g.z && f1 == f2, "the particle drawn for a seed is not reproducible");
    firsts.insert(f1);
    dirs.insert({g.x, g.y});
  }
  { // seeds far apart: every one-bit change of a seed starts another stream
    std::set<uint64_t> far{src.Sample((RNG::result_type)base).rng()};
    for (int b = 0; b < 31; b++) far.insert(src.Sample((RNG::result_type)(base ^ (1ull << b))).rng());
    c.check(far.size() + 1 >= 32, cat("seed ", base, " and its 31 one-bit changes gave only ", far.size(), " distinct streams"));
  }
  c.check(firsts.size() + 1 >= (size_t)n, // scrambled seeds may coincide, once in 10^7 cases
           cat(n, " consecutive seeds gave only ", firsts.size(), " distinct streams"));
  if (s.kind) c.check(dirs.size() + 1 >= (size_t)n, "consecutive seeds repeat directions");
  c.evals(n);
  c.label(s.kind == 0 ? "constant" : s.kind == 1 ? "isotropic" : "isotropic-flux");
  c.nontrivial(s.kind == 0 ? std::fabs(s.ref.norm() - 1) > 1e-3 : true);
}
static void distribution(Case& c) {
  Spec s = gen(c);
  s.kind = 1 + c.below(2);
  Input in;
  in.direction_xml = s.kind == 1 ? "<isotropic/>" : dir_xml(s.ref, "isotropic-flux");
  c.note(in.direction_xml);
  Doc d(in.xml());
  Source src{d.root.child("problemtype").child("fixedsource")};
  V3 ax = s.kind == 1 ? gen_dir(c).unit() : s.ref.unit();
  if (s.kind == 1 && c.chance(1, 2)) { // a coordinate axis: the pole of whatever parametrisation the sampler uses
    int k = c.below(3);
    ax = V3{k == 0 ? 1. : 0., k == 1 ? 1. : 0., k == 2 ? 1. : 0.};
  }
  // equal-probability cells away from the ends of the polar range, narrow ones at the ends
  static const double edges[] = {0, .001, .005, .02, .1, .2, .3, .4, .5, .6, .7, .8, .9, .98, .995, .999, 1};
  constexpr int nf = sizeof edges / sizeof *edges - 1;
  V3 e0 = ax.cross(std::fabs(ax.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(), e1 = ax.cross(e0);
  uint64_t seed = c.seed();
  bool run = c.chance(1, 2); // the seeds of one run, or seeds from the whole range
  pbt::confirm(c, s.kind == 1 ? "isotropic source" : "isotropic-flux source", c.thorough ? 400000 : 200000, [&](int round, uint64_t n) {
    std::vector<double> cnt(nf * 8, 0), pr(nf * 8), caps(9, 0);
    static const double cap[] = {1e-4, 4e-4, 1.6e-3, 6.4e-3}; // and the same at the other end
    std::vector<double> cp(9);
    for (int i = 0; i < 4; i++) cp[i] = cp[8 - i] = cap[i] - (i ? cap[i - 1] : 0);
    cp[4] = 1 - 2 * cap[3];
    for (int i = 0; i < nf * 8; i++) pr[i] = (edges[i / 8 + 1] - edges[i / 8]) / 8;
    for (uint64_t i = 0; i < n; i++) {
      Particle p = src.Sample((RNG::result_type)(run ? seed + round * 10000000ull + i : 1 + pbt::mix64(seed * 31 + round * 0x9999 + i * 7) % 2147483646));
      V3 g = V(p.GetDirection());
      double mu = g.dot(ax), f = s.kind == 1 ? (mu + 1) / 2 : mu * mu;
      double a = std::atan2(g.dot(e1), g.dot(e0)) / (2 * M_PI) + 0.5;
      int ci = 4;
      for (int k = 3; k >= 0; k--) if (f < cap[k]) ci = k; else if (1 - f < cap[k]) ci = 8 - k;
      caps[ci]++;
      int fi = 0;
      while (fi < nf - 1 && f >= edges[fi + 1]) fi++;
      cnt[fi * 8 + std::min(7, std::max(0, (int)(a * 8)))]++;
    }
    return std::min(1., 2 * std::min(pbt::multinomial_p(cnt, pr), pbt::multinomial_p(caps, cp)));
  });
  c.label(s.kind == 1 ? "isotropic" : "isotropic-flux"); c.label(run ? "consecutive seeds" : "scattered seeds");
  c.nontrivial();
}
PBT_MAIN((pbt::Property{"C05",
  "values: a generated source (position, direction law with a reference vector of any length, energy or group, type) sampled for 20 consecutive seeds and re-sampled through a second source object; non-trivial unless the constant direction was already normalised. distribution: 200000 (thorough 400000) particles of an isotropic or isotropic-flux source binned in cosine x azimuth (16 x 8 cells, narrow ones at both ends of the polar range), of consecutive seeds as in a run or of seeds spread over the generator's range.",
  {"seeds are below 2^32: the generator keeps 31 bits of state, and a seed enters it modulo 2^32"},
  {{"values", values, 120000, 600000}, {"distribution", distribution, 480, 4000}}}))
