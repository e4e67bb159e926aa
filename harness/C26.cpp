#include "ceworld.hpp"
#include "FixedSource.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
using Sums = std::vector<std::vector<double>>;
// --- rewriting a source direction ----------------------------------------
struct Dir { std::string tag; V3 d; };
static Dir read_dir(const std::string& xml) {
  pugi::xml_document d; d.load_string(xml.c_str()); auto n = d.first_child();
  return {n.name(), V3{n.attribute("x").as_double(), n.attribute("y").as_double(), n.attribute("z").as_double()}};
}
static std::string write_dir(const Dir& d) { return d.tag == "isotropic" ? "<isotropic/>" : dir_xml(d.d, d.tag.c_str()); }
// a beam whose fate rounding could change, in itself or in a tally's bins
static bool fragile(const Input& in, double scale) {
  Dir d = read_dir(in.direction_xml);
  if (d.tag != "constant") return false;
  bool clear = true;
  V3 u = V(D(d.d));
  trace(in, in.pos, u, scale, 1e-6, &clear);
  for (auto& t : in.tallies) if (t.cosine.kind) { Ld mu = ((Ld)u.x * t.ref.x + (Ld)u.y * t.ref.y + (Ld)u.z * t.ref.z) / t.ref.norm(); for (Ld e : t.cosine.edges()) if (std::fabs(mu - e) < 1e-9L) clear = false; }
  return !clear;
}
static bool same(const Sums& a, const Sums& b) {
  for (size_t t = 0; t < a.size(); t++) for (size_t i = 0; i < a[t].size(); i++) if (a[t][i] != b[t][i]) return false;
  return true;
}
static double total(const Sums& a) { double s = 0; for (auto& t : a) for (double v : t) s += v; return s; }
// Do two inputs expect the same? `map` lays the tallies of b out like those of
// a. With `exact`, runs of the same seed are expected to agree digit by digit;
// when they do nothing else is needed, and when they do not the expectations
// decide: the histories may legitimately be drawn differently.
struct Match { bool any = false; bool exact = false; uint64_t cases = 0; };
static Match match(Case& c, Input a, Input b, const std::string& what, uint64_t runs, bool exact, const std::function<Sums(const Sums&)>& map = nullptr) {
  Match m;
  uint64_t seed = c.seed();
  auto f = [&](const Input& i) { auto s = solve(i).sum; return s; };
  auto g = [&](const Input& i) { auto s = solve(i).sum; return map ? map(s) : s; };
  if (exact) {
    a.seed = b.seed = 1 + seed % 2000000000;
    auto x = f(a), y = g(b);
    m.any = total(x) > 0; m.cases = a.histories + b.histories;
    if (same(x, y)) { m.exact = true; return m; }
    c.label("decided by expectations");
  }
  std::string last;
  try {
    pbt::confirm(c, what, runs, [&](int round, uint64_t n) {
      ChunkTest T(a);
      for (uint64_t k = 0; k < n; k++) {
        a.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + 2 * k)) % 2000000000;
        b.seed = 1 + pbt::mix64(seed ^ (round * 15485863 + 2 * k + 1)) % 2000000000;
        auto x = f(a), y = g(b);
        m.any |= total(x) > 0;
        T.push(T.a, x); T.push(T.b, y);
      }
      m.cases += n * (a.histories + b.histories);
      double p = T.p(); last = T.worst; return p;
    });
  } catch (pbt::Failure& e) { throw pbt::Failure{e.msg + "\n" + last + " (the reference is the second description)"}; }
  return m;
}
static void done(Case& c, const Match& m) { c.evals(m.cases); c.nontrivial(m.any); }
// --- problems -------------------------------------------------------------
static double gen_ce_any(Case& c, Input& in, Files& f, Field& fl, bool linear) {
  GeomOpt g;
  double tmin = c.uniform(50, 400), tmax = tmin * c.uniform(1.5, 10), tmid = (tmin + tmax) / 2;
  auto ns = gen_ce_nuclides(c, false, true, tmid);
  double E0 = kBoltzmann * tmax * c.logreal(0.05, 30);
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, tmid)) c.discard();
  fl = gen_temperatures(c, in, tmin, tmax, linear, c.chance(1, 3));
  in.tracking = linear || c.chance(1, 2) ? "cell delta" : "surface";
  return g.scale;
}
static double gen_mg_any(Case& c, Input& in, bool photons) {
  ProbOpt o; o.photons = photons; o.coincident = false; o.thick = 2.5;
  GeomOpt g;
  if (!gen_problem(c, in, o, &g)) c.discard();
  for (auto& t : in.tallies) if (t.energy.kind == Axis::logspace) t.energy = Axis{};
  return g.scale;
}
// lengths in another unit: everything a power of two larger, densities smaller
static void scale(Case& c) {
  Input a; Files f; Field fl; double L;
  bool ce = c.chance(1, 4);
  if (ce) L = gen_ce_any(c, a, f, fl, c.chance(1, 2)); else L = gen_mg_any(c, a, c.chance(1, 4));
  if (fragile(a, L)) c.discard();
  int k = c.range(1, 30); double s = std::ldexp(1, c.chance(1, 2) ? k : -k);
  Input b = a;
  for (auto& x : b.surfaces) { x.c = x.c * s; x.r *= s; }
  for (auto& m : b.materials) m.aden /= s;
  b.pos = b.pos * s;
  if (ce) { Field q = fl; q.g = q.g * (1 / s); b.temperature_xml = q.xml(); }
  a.histories = b.histories = ce ? 150 : 250;
  c.note("lengths times ", s, "\n", a.xml());
  auto m = match(c, a, b, "the same problem with lengths in another unit", c.thorough ? 300 : 100, true);
  if (ce) c.label("continuous");
  c.label(std::fabs(std::log2(s)) > 15 ? "far" : "near");
  done(c, m);
}
// names, the order of definitions and the lengths of direction vectors are
// arbitrary; so are the multiples of atom fractions
static void rewrite(Case& c) {
  Input a; double L = gen_mg_any(c, a, c.chance(1, 3));
  if (fragile(a, L)) c.discard();
  Input b = a;
  std::vector<int> tl; for (size_t i = 0; i < a.tallies.size(); i++) tl.push_back(i);
  auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]); };
  int style = c.below(3);
  auto fresh = [&](const char* p, size_t i) {
    if (style == 0) return std::string{(char)('a' + c.below(26))} + p + std::to_string(i);
    if (style == 1) return std::string(i + 1, 'q'); // each a prefix of the next, of all kinds alike
    std::string s = "ijklmnop"; // the same but for case
    for (size_t b = 0; b < s.size(); b++) if (i >> b & 1) s[b] = std::toupper(s[b]);
    return s;
  };
  bool names = false;
  if (c.chance(1, 2)) { // regions do not overlap, so their order is arbitrary
    shuffle(b.regions);
    for (auto& r : b.regions) shuffle(r.sides);
    c.label("regions reordered");
  }
  if (c.chance(1, 2)) { shuffle(b.materials); c.label("materials reordered"); }
  if (c.chance(1, 2)) { shuffle(b.nuclides); for (auto& m : b.materials) shuffle(m.nuclides); c.label("nuclides reordered"); }
  if (c.chance(1, 2)) { std::vector<Tally> t; shuffle(tl); for (int i : tl) t.push_back(a.tallies[i]); b.tallies = t; c.label("tallies reordered"); }
  if (c.chance(1, 2)) for (auto& m : b.materials) { double s = std::ldexp(1, c.range(-20, 20)); for (auto& n : m.nuclides) n.second *= s; }
  if (c.chance(1, 2)) { Dir d = read_dir(b.direction_xml); d.d = d.d * std::ldexp(1, c.range(-20, 20)); b.direction_xml = write_dir(d); c.label("source direction rescaled"); }
  if (c.chance(1, 2)) { for (auto& t : b.tallies) t.ref = t.ref * std::ldexp(1, c.range(-20, 20)); c.label("reference directions rescaled"); }
  if (c.chance(1, 2)) {
    auto ren = [&](auto& v, const char* p, auto&& use) { for (size_t i = 0; i < v.size(); i++) { std::string o = v[i].name, n = fresh(p, i); use(o, n, v[i]); } };
    // two passes through unused names are not needed: new names never collide with old ones
    ren(b.surfaces, "_surface", [&](const std::string& o, const std::string& n, Surf& s) { for (auto& t : b.tallies) if (t.surface == o) t.surface = n; s.name = n; });
    ren(b.materials, "_material", [&](const std::string& o, const std::string& n, Mat& m) { for (auto& r : b.regions) if (r.material == o) r.material = n; m.name = n; });
    if (c.chance(1, 2)) { ren(b.nuclides, "_nuclide", [&](const std::string& o, const std::string& n, MgNuclide& x) { for (auto& m : b.materials) for (auto& q : m.nuclides) if (q.first == o) q.first = n; x.name = n; }); names = true; }
    for (size_t i = 0; i < b.regions.size(); i++) if (!b.regions[i].is_void) b.regions[i].name = fresh("_region", i);
    for (size_t i = 0; i < b.tallies.size(); i++) b.tallies[i].name = fresh("_tally", i);
    c.label("renamed");
  }
  // the model's reader finds surfaces of b by index, which shuffling regions kept
  a.histories = b.histories = 250;
  c.note(a.xml(), "\nagainst\n", b.xml());
  auto m = match(c, a, b, "the same problem written differently", c.thorough ? 300 : 100, true, [&](const Sums& s) { Sums r(s.size()); for (size_t i = 0; i < s.size(); i++) r[tl[i]] = s[i]; return r; });
  if (names) c.label("nuclides renamed");
  if (m.exact) c.label("identical");
  done(c, m);
}
// data of the other particle type: neutrons and photons without fission walk alike
static void types(Case& c) {
  Input a;
  ProbOpt o; o.photons = true; o.fission = false; o.coincident = false; GeomOpt g;
  if (!gen_problem(c, a, o, &g)) c.discard();
  if (fragile(a, g.scale)) c.discard();
  Input b = a;
  for (auto& n : b.nuclides) std::swap(n.neutron, n.photon);
  b.type = a.type == "neutron" ? "photon" : "neutron";
  a.histories = b.histories = 250;
  c.note(a.xml());
  done(c, match(c, a, b, "neutrons and photons with each other's data", c.thorough ? 300 : 100, true));
}
// one temperature, stated globally, per region, or as a field that is flat
static void temperature(Case& c) {
  Input a; Files f; Field fl;
  double L = gen_ce_any(c, a, f, fl, false);
  if (fragile(a, L)) c.discard();
  Input b = a;
  int n = 0;
  for (size_t i = 0; i < a.regions.size(); i++) if (!a.regions[i].is_void) {
    if (a.regions[i].temperature) { n += *a.regions[i].temperature == fl.c; continue; }
    if (c.chance(2, 3)) { b.regions[i].temperature = fl.c; n++; }
  }
  bool all = true; for (auto& r : b.regions) all &= r.is_void || r.temperature;
  if (all && c.chance(1, 2)) { b.temperature_xml = Field{false, c.uniform(1, 3000)}.xml(); n++; c.label("global temperature unused"); }
  else if (c.chance(1, 2)) {
    // a flat linear field allows only cell delta tracking
    Field q; q.linear = true; q.g = V3{0, 0, 0}; q.b = fl.c; q.lo = fl.c * c.uniform(0.5, 1); q.hi = fl.c * (c.chance(1, 2) ? 1 : c.uniform(1, 1.5));
    b.temperature_xml = q.xml(); b.tracking = "cell delta"; n++; c.label("flat field");
  }
  a.histories = b.histories = 150;
  c.note(a.xml(), "\nagainst temperatures\n", b.xml());
  auto m = match(c, a, b, "the same temperatures stated differently", c.thorough ? 300 : 100, a.tracking == b.tracking);
  c.evals(m.cases); c.nontrivial(m.any && n);
}
// mirrored, turned around the x axis, moved along it
static void symmetry(Case& c) {
  Input a; Files f; Field fl; double L;
  bool ce = c.chance(1, 4);
  if (ce) L = gen_ce_any(c, a, f, fl, c.chance(1, 2)); else L = gen_mg_any(c, a, c.chance(1, 5));
  if (fragile(a, L)) c.discard();
  double fx = c.chance(1, 2) ? -1 : 1, fy = c.chance(1, 3) ? -1 : 1, ang = c.chance(1, 3) ? 0 : c.chance(1, 3) ? M_PI / 2 * c.range(0, 3) : c.uniform(0, 2 * M_PI);
  double sh = c.chance(1, 2) ? 0 : c.sign() * L * c.logreal(0.1, 1000);
  double cs = std::cos(ang), sn = std::sin(ang);
  auto M = [&](V3 v) { v.y *= fy; return V3{fx * v.x, cs * v.y - sn * v.z, sn * v.y + cs * v.z}; };
  auto T = [&](V3 v) { V3 w = M(v); w.x += sh; return w; };
  Input b = a;
  for (auto& s : b.surfaces) { if (s.kind == Surf::sphere) s.c = T(s.c); else if (s.kind == Surf::planex) s.r = fx * s.r + sh; }
  if (fx < 0) for (auto& r : b.regions) for (auto& s : r.sides) if (b.surfaces[s.first].kind == Surf::planex) s.second = -s.second;
  b.pos = T(a.pos);
  Dir d = read_dir(a.direction_xml); d.d = M(d.d); b.direction_xml = write_dir(d);
  for (auto& t : b.tallies) t.ref = M(t.ref);
  if (ce) { Field q = fl; if (q.linear) { q.g = M(fl.g); q.b = fl.b - q.g.x * sh; double e = 1e-12 * (std::fabs(q.b) + q.g.norm() * (std::fabs(sh) + 5 * L)); q.lo = std::max(0., q.lo - e); q.hi += e; } b.temperature_xml = q.xml(); }
  if (fragile(b, L + std::fabs(sh) * 1e-3)) c.discard();
  { bool clear = true; int r = b.locate(b.pos, &clear), q = a.locate(a.pos); if (!clear || r != q) c.discard(); }
  a.histories = b.histories = ce ? 150 : 250;
  c.note(fx < 0 ? "x mirrored " : "", fy < 0 ? "y mirrored " : "", "turned by ", ang, " moved by ", sh, "\n", a.xml());
  done(c, match(c, a, b, "the mirrored, turned or moved problem", c.thorough ? 400 : 100, false));
  if (ce) c.label("continuous");
  if (fx < 0) c.label("x mirrored"); if (ang != 0) c.label("turned"); if (sh != 0) c.label("moved");
}
// fictitious surfaces between regions of the same material
static void split(Case& c) {
  Input a; Files f; Field fl; double L;
  bool ce = c.chance(1, 4);
  if (ce) L = gen_ce_any(c, a, f, fl, c.chance(1, 2)); else L = gen_mg_any(c, a, c.chance(1, 5));
  Input b = a; int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    std::vector<int> cand; for (size_t r = 0; r < b.regions.size(); r++) if (!b.regions[r].is_void) cand.push_back(r);
    int r = c.chance(1, 2) ? b.locate(b.pos) : cand[c.below(cand.size())];
    Surf s; s.name = "cut" + std::to_string(i);
    V3 o = b.pos + V3{c.real(-.4, .4), c.real(-.4, .4), c.real(-.4, .4)} * L;
    switch (c.below(3)) { case 0: s.kind = Surf::sphere; s.c = o; s.r = L * c.uniform(0.05, 0.7); break; case 1: s.kind = Surf::planex; s.r = o.x; break; default: s.kind = Surf::cylinderx; s.r = std::hypot(o.y, o.z) + L * 0.01; }
    b.surfaces.push_back(s);
    Region q = b.regions[r]; q.name += "cut" + std::to_string(i);
    int k = b.surfaces.size() - 1;
    b.regions[r].sides.push_back({k, -1}); q.sides.insert(q.sides.begin(), {k, +1});
    b.regions.insert(b.regions.begin() + c.below(b.regions.size() + 1), q);
  }
  bool clear = true; b.locate(b.pos, &clear); if (!clear) c.discard();
  for (auto& s : b.surfaces) if (std::fabs(s.value(b.pos)) < 1e-6 * L * (s.kind == Surf::planex ? 1 : L)) c.discard();
  if (fragile(a, L) || fragile(b, L)) c.discard();
  a.histories = b.histories = ce ? 150 : 250;
  c.note(a.xml(), "\nagainst\n", b.xml());
  done(c, match(c, a, b, "the problem with fictitious surfaces", c.thorough ? 400 : 100, false));
  if (ce) c.label("continuous");
}
// energy groups in another order, or refined into copies
static void groups(Case& c) {
  Input a; double L = gen_mg_any(c, a, c.chance(1, 5));
  if (fragile(a, L)) c.discard();
  int G = a.groups;
  std::vector<int> old; // old group of each new one
  for (int g = 0; g < G; g++) old.push_back(g);
  bool perm = c.chance(1, 2), fine = !perm || c.chance(1, 2);
  if (perm && G > 1) { for (size_t i = old.size(); i > 1; i--) std::swap(old[i - 1], old[c.below(i)]); }
  if (fine) for (int i = 0, n = c.range(1, 2); i < n; i++) { int g = c.below(G); old.insert(old.begin() + c.below(old.size() + 1), g); }
  int N = old.size();
  // each copy's share of what enters its group
  std::vector<double> share(N), sum(G, 0.);
  for (int i = 0; i < N; i++) { share[i] = c.uniform(0.1, 1); sum[old[i]] += share[i]; }
  for (int i = 0; i < N; i++) share[i] /= sum[old[i]];
  Input b = a; b.groups = N;
  auto vec = [&](std::vector<double>& v) { if (v.empty()) return; std::vector<double> w; for (int i = 0; i < N; i++) w.push_back(v[old[i]]); v = w; };
  auto mat = [&](std::vector<double>& v) { if (v.empty()) return; std::vector<double> w; for (int to = 0; to < N; to++) for (int from = 0; from < N; from++) w.push_back(v[old[to] * G + old[from]] * share[to]); v = w; };
  for (auto& n : b.nuclides) for (auto* m : {&n.neutron, &n.photon}) if (*m) { vec((*m)->capture); vec((*m)->fis_xs); vec((*m)->nubar); mat((*m)->scatter); mat((*m)->chi); }
  int g0 = std::stoi(a.energy) - 1; std::vector<int> same; for (int i = 0; i < N; i++) if (old[i] == g0) same.push_back(i);
  b.energy = std::to_string(c.pick(same) + 1);
  for (auto* in : {&a, &b}) for (auto& t : in->tallies) if (t.energy.kind) { t.energy = Axis{}; if (in->groups > 1) { t.energy.kind = Axis::boundaries; for (int g = 1; g < in->groups; g++) t.energy.bounds.push_back(g + 0.5); } }
  // remember which tallies resolve energy, even with a single group
  std::vector<bool> res; { for (size_t i = 0; i < a.tallies.size(); i++) res.push_back(a.tallies[i].energy.kind || b.tallies[i].energy.kind); }
  a.histories = b.histories = 250;
  c.note(a.xml(), "\nagainst\n", b.xml());
  auto fold = [&](const Sums& s) {
    Sums r;
    for (size_t t = 0; t < s.size(); t++) {
      if (!res[t]) { r.push_back(s[t]); continue; }
      size_t nc = s[t].size() / N; std::vector<double> v(nc * G, 0.);
      for (size_t k = 0; k < nc; k++) for (int i = 0; i < N; i++) v[k * G + old[i]] += s[t][k * N + i];
      r.push_back(v);
    }
    return r;
  };
  auto m = match(c, a, b, "the problem with renumbered or refined groups", c.thorough ? 400 : 100, false, fold);
  if (perm && G > 1) c.label("renumbered"); if (fine) c.label("refined");
  c.evals(m.cases); c.nontrivial(m.any && N > 1);
}
// tables with more points on the same lines
static void refine(Case& c) {
  Files f; GeomOpt g; Field fl; Input a;
  double tmin = c.uniform(50, 400), tmax = tmin * c.uniform(1.5, 10), tmid = (tmin + tmax) / 2;
  auto ns = gen_ce_nuclides(c, false, true, tmid);
  double E0 = kBoltzmann * tmax * c.logreal(0.05, 30);
  a.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, a, g, ns, E0, tmid)) c.discard();
  bool linear = c.chance(1, 2);
  fl = gen_temperatures(c, a, tmin, tmax, linear, c.chance(1, 3));
  a.tracking = linear || c.chance(1, 2) ? "cell delta" : "surface";
  if (fragile(a, g.scale)) c.discard();
  Input b = a; auto ms = ns;
  int added = 0;
  auto more = [&](Tab1& t) {
    int n = c.range(0, 4);
    for (int i = 0; i < n; i++) {
      size_t k = c.below(t.x.size() + 1);
      double x = k == 0 ? t.x[0] * c.uniform(0.2, 0.9) : k == t.x.size() ? t.x.back() * c.uniform(1.1, 3) : t.x[k - 1] + (t.x[k] - t.x[k - 1]) * c.uniform(0.1, 0.9);
      double y = (double)t.at(x);
      t.x.insert(t.x.begin() + k, x); t.y.insert(t.y.begin() + k, y); added++;
    }
  };
  for (auto& n : ms) { auto& d = *n.neutron; for (auto* e : {&d.total, &d.capture, &d.scatter, &d.fission}) if (*e) more((*e)->xs); if (d.fission) more(d.nubar); }
  b.nuclides_xml = ce_xml(ms, f);
  a.histories = b.histories = 150;
  c.note("E0 ", E0, " points added ", added, "\n", a.xml());
  auto m = match(c, a, b, "the problem with refined data tables", c.thorough ? 300 : 100, true);
  c.evals(m.cases); c.nontrivial(m.any && added);
}
// one group of constant data and continuous data that do not depend on energy
static void pair(Case& c) {
  Input a; Files f;
  ProbOpt o; o.max_groups = 1; o.coincident = false; o.thick = 2.5; GeomOpt g;
  if (!gen_problem(c, a, o, &g)) c.discard();
  for (auto& t : a.tallies) t.energy = Axis{};
  // scattering keeps no group's energy in continuous data: leave it out
  for (auto& n : a.nuclides) { auto& m = *n.neutron; m.scatter.clear(); if (!(mg_total(m, 1, 0) > 0)) m.capture = {0.5}; if (m.fis_xs.empty() && c.chance(1, 2)) { m.fis_xs = {c.uniform(0.1, 1)}; m.nubar = {c.uniform(0, 3)}; m.chi = {1}; } tame(m, 1, 0.8); }
  if (fragile(a, g.scale)) c.discard();
  double E0 = c.logreal(1e-9, 10), T = c.uniform(50, 2000); bool fission = false;
  std::vector<CeNuclide> ns;
  auto flat = [&](double v) { Tab1 t; t.x = gen_axis(c, c.range(1, 4), E0 * 0.1, E0 * 10, true); t.y.assign(t.x.size(), v); return t; };
  for (auto& n : a.nuclides) {
    CeNuclide x; x.name = n.name; x.awr = c.logreal(1, 200); x.neutron = CeData{}; auto& m = *n.neutron;
    if (!m.capture.empty()) x.neutron->capture = Eval{flat(m.capture[0]), c.uniform(50, 2000)};
    if (!m.fis_xs.empty()) { x.neutron->fission = Eval{flat(m.fis_xs[0]), c.uniform(50, 2000)}; x.neutron->nubar = flat(m.nubar[0]); fission = true; }
    if (c.chance(1, 2)) x.neutron->total = Eval{flat(mg_total(m, 1, 0)), c.chance(1, 2) ? T : c.uniform(50, 2000)};
    ns.push_back(x);
  }
  Input b = a; b.nuclides_xml = ce_xml(ns, f); b.energy = num(E0); b.temperature_xml = Field{false, T}.xml();
  a.histories = b.histories = 250;
  c.note(a.xml(), "\nagainst\n", b.xml());
  auto m = match(c, a, b, "group data and energy-independent continuous data", c.thorough ? 400 : 100, false);
  if (fission) c.label("fission");
  done(c, m);
}
PBT_MAIN((pbt::Property{"C26",
  "Pairs of inputs that describe the same physical problem are solved and their tallies compared. scale: all lengths times a power of two up to 2^30 with densities divided by it, multigroup and continuous, linear temperature fields included. rewrite: regions (which do not overlap), their surfaces, materials, nuclides and tallies reordered, everything renamed (also to names that begin with each other or differ by case, shared between kinds), atom fractions and direction vectors rescaled. types: neutrons and photons with exchanged data. temperature: the same temperatures stated globally, per region or as a flat field. symmetry: mirrored in x or y, turned about the x axis, moved along it. split: regions cut by fictitious surfaces. groups: groups renumbered or split into copies. refine: interpolation points added to the data tables. pair: one-group capture and fission data against continuous data that do not depend on energy. Where both inputs draw the same random numbers (scale, rewrite, types, temperature, refine) equal tallies settle a case at once; otherwise, and for the other facets, the mean of every tally bin over 100 runs per description with random seeds is compared. Non-trivial when something scores (and the descriptions differ).",
  {"Tally bins with fewer than 300 counts are pooled.", "Beams that pass within rounding of a tangent point or a bin boundary are left out."},
  {{"scale", scale, 1200, 20000, false, 120}, {"rewrite", rewrite, 1500, 20000, false, 120}, {"types", types, 800, 10000, false, 120}, {"temperature", temperature, 800, 8000, false, 200}, {"symmetry", symmetry, 200, 2500, false, 300}, {"split", split, 200, 2500, false, 300}, {"groups", groups, 200, 2500, false, 200}, {"refine", refine, 400, 5000, false, 200}, {"pair", pair, 120, 1500, false, 200}}}))
