#include "geomgen.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "FixedSource.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Point.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
#include <unistd.h>
using namespace model;
using pbt::Case;
using pbt::cat;
static Point P(V3 v) { return Point{v.x, v.y, v.z}; }

// arbitrary surfaces and regions: overlapping, nested, with gaps
static Input gen_world(Case& c, double scale, bool large = false) {
  Input in;
  bool big = large && c.chance(1, 25); int ns = c.range(1, big ? 30 : 5), nr = c.range(1, big ? 40 : 6), nm = c.range(1, 3), nn = c.range(1, 3);
  for (int i = 0; i < ns; i++) in.surfaces.push_back(gen_surface(c, cat("s", i), scale));
  if (c.chance(1, 3)) { // concentric shells with dyadic radii
    for (int i = 0; i < ns; i++) { in.surfaces[i].kind = Surf::sphere; in.surfaces[i].c = {}; in.surfaces[i].r = scale * (i + 1) / 4; }
    if (c.chance(1, 2)) std::reverse(in.surfaces.begin(), in.surfaces.end());
  }
  for (int i = 0; i < nn; i++) in.nuclides.push_back(absorber(cat("n", i), 1 + i));
  for (int i = 0; i < nm; i++) {
    Mat m{cat("m", i), 1. + i, {}};
    m.nuclides.push_back({cat("n", c.below(nn)), 1});
    in.materials.push_back(m);
  }
  // several cells may carry the same name
  for (int i = 0; i < nr; i++) {
    Region r;
    r.is_void = c.chance(1, 4);
    if (!r.is_void) {
      r.name = cat("c", c.chance(1, 6) ? 0 : i);
      r.material = cat("m", c.below(nm));
      if (c.chance(1, 3)) r.temperature = c.uniform(1, 2000);
    }
    int k = c.range(1, std::min(ns, 3));
    std::vector<int> idx;
    for (int j = 0; j < ns; j++) idx.push_back(j);
    for (int j = 0; j < k; j++) {
      int q = c.below(idx.size());
      r.sides.push_back({idx[q], c.chance(1, 2) ? 1 : -1});
      idx.erase(idx.begin() + q);
    }
    in.regions.push_back(r);
  }
  return in;
}

static void locate(Case& c) {
  static const double sc[] = {1, 8, 0.05, 300};
  double scale = sc[c.below(4)];
  Input in = gen_world(c, scale, true);
  c.note(in.xml());
  Doc d(in.xml());
  std::unique_ptr<World> w;
  try { w = std::make_unique<World>(d.root); }
  catch (const std::exception& e) { c.fail(cat("valid input rejected: ", e.what())); }
  c.check(w->cells.size() == in.regions.size(), "number of regions differs from the input");
  for (size_t i = 0; i < in.regions.size(); i++) {
    const auto& r = in.regions[i];
    const Cell& cell = w->cells[i];
    c.check(!r.is_void == (bool)cell.material, cat("region ", i, ": material presence differs from the input"));
    if (!r.is_void) {
      c.check(cell.name == r.name && cell.material->name == r.material, cat("region ", i, " has name ", cell.name, " and material ", cell.material->name));
      double T = r.temperature.value_or(293.6);
      c.check(cell.temperature->at(Point{1, 2, 3}) == T && cell.temperature->upper_bound == T, cat("region ", i, " has the wrong temperature"));
    }
  }
  int n = 15, found = 0, gaps = 0, later = 0;
  for (int i = 0; i < n; i++) {
    const Surf& s = in.surfaces[c.below(in.surfaces.size())];
    V3 p = gen_point_near(c, s, scale);
    bool clear = true;
    int want = in.locate(p, &clear);
    if (!clear) continue;
    const Cell* got = nullptr;
    try { got = &w->FindCellContaining(P(p)); }
    catch (const std::runtime_error&) {}
    int gi = got ? (int)(got - w->cells.data()) : -1;
    // membership of every region, not just the first
    for (size_t k = 0; k < in.regions.size(); k++) {
      bool m = true;
      for (auto& [si, sd] : in.regions[k].sides) if (in.surfaces[si].inside(p) != (sd < 0)) m = false;
      c.check(w->cells[k].Contains(P(p)) == m, cat("region ", k, " reports containment ", !m, " of ", p.str()));
    }
    if (gi != want) {
      c.fail(cat("point ", p.str(), " was located in region ", gi, " but the first region containing it is ", want, " (-1: none)"));
    }
    if (want < 0) { gaps++; continue; }
    found++;
    if (want > 0) later++;
    // nearest surface of the region
    V3 dir = gen_dir(c);
    Direction D{dir.x, dir.y, dir.z};
    V3 dd{D.Dot(Point{1, 0, 0}), D.Dot(Point{0, 1, 0}), D.Dot(Point{0, 0, 1})};
    Ld best = std::numeric_limits<Ld>::infinity(), second = best;
    Ld tol = 0;
    std::string name;
    bool safe = true;
    for (auto& [si, sd] : in.regions[want].sides) {
      (void)sd;
      const Surf& f = in.surfaces[si];
      if (!f.decidable(p, dd)) safe = false;
      Ld t = f.distance(p, dd);
      if (t < best) { second = best; best = t; name = f.name; tol = f.dist_tol(p, dd, t); }
      else second = std::min(second, t);
    }
    if (!safe) continue;
    auto [surf, dist] = w->cells[want].NearestSurface(P(p), D);
    std::string where = cat("from ", p.str(), " along ", dd.str(), " in region ", want, ": ");
    if (std::isinf(best)) { c.check(std::isinf(dist), where + cat("no bounding surface ahead, reported ", dist)); continue; }
    if (second - best > 2 * tol) c.check(std::fabs(dist - best) <= tol, where + cat("nearest surface is ", name, " at ", (double)best, ", reported ", surf->name, " at ", dist));
    // also the identity of the surface, unless it is a near tie
    if (second - best > 1e-6L * (best + scale)) c.check(surf->name == name, where + cat("nearest surface is ", name, ", reported ", surf->name));
    c.label("nearest surface decided");
  }
  if (gaps) c.label("points in no region");
  if (later) c.label("points in a later region");
  c.evals(n);
  c.nontrivial(found > 0 && (gaps > 0 || later > 0));
}

// lookups by name, and errors for names that do not exist
static void names(Case& c) {
  Input in = gen_world(c, 2);
  // names that are prefixes / extensions of each other
  static const std::vector<std::string> pool = {"a", "ab", "abc", "A", "a b", "b", "s1", "s10", "s", "outer", "inner"};
  std::vector<std::string> names = pool;
  for (auto& s : in.surfaces) { int k = c.below(names.size()); s.name = names[k]; names.erase(names.begin() + k); }
  std::vector<std::string> nn = pool;
  std::map<std::string, std::string> ren;
  for (auto& n : in.nuclides) { int k = c.below(nn.size()); ren[n.name] = nn[k]; n.name = nn[k]; nn.erase(nn.begin() + k); }
  for (auto& m : in.materials) for (auto& x : m.nuclides) x.first = ren[x.first];
  // make the first region solid so that a world exists
  in.regions[0].is_void = false; in.regions[0].name = "first"; in.regions[0].material = in.materials[0].name;
  std::set<std::string> used_s, used_n;
  for (auto& r : in.regions) {
    for (auto& [i, sd] : r.sides) { (void)sd; used_s.insert(in.surfaces[i].name); }
    if (!r.is_void) for (auto& m : in.materials) if (m.name == r.material) for (auto& x : m.nuclides) used_n.insert(x.first);
  }
  int nt = c.range(1, 3);
  std::vector<std::string> us(used_s.begin(), used_s.end());
  for (int i = 0; i < nt; i++) { Tally t; t.name = cat("t", i * 10 + c.below(3)); t.surface = us[c.below(us.size())]; in.tallies.push_back(t); }
  // what is wrong with this input: 0 nothing
  int fault = c.below(8);
  std::string want;
  // a name nothing has: another word, or nearly the name of something
  auto bogus = [&] {
    std::set<std::string> taken;
    for (auto& s : in.surfaces) taken.insert(s.name);
    for (auto& n : in.nuclides) taken.insert(n.name);
    for (auto& m : in.materials) taken.insert(m.name);
    std::vector<std::string> all(taken.begin(), taken.end());
    std::string b = all[c.below(all.size())];
    switch (c.below(4)) {
    case 0: b += "x"; break;
    case 1: b.pop_back(); break;
    case 2: for (auto& x : b) x = std::isupper(x) ? std::tolower(x) : std::toupper(x); break;
    default: b = "nope";
    }
    if (b.empty() || b.back() == ' ' || taken.count(b)) b = "nope";
    return b;
  };
  if (fault == 1) { in.tallies[c.below(in.tallies.size())].surface = want = bogus(); }
  if (fault == 2) { in.materials.front().nuclides.front().first = want = bogus(); }
  if (fault == 3) { in.regions[0].material = want = bogus(); }
  if (fault == 4) { // region bounded by an unknown surface
    Surf s; s.name = want = bogus(); in.surfaces.push_back(s); in.regions[c.below(in.regions.size())].sides[0].first = in.surfaces.size() - 1;
  }
  if (fault == 5) { Perturb p{"pp", bogus()}; want = p.nuclide; in.perturbations.push_back(p); }
  if (fault == 6) { in.tallies[c.below(in.tallies.size())].sens = {want = bogus()}; }
  std::string xml = in.xml();
  if (fault == 4) { std::string x = in.surfaces.back().xml(); auto p = xml.find(x); xml.erase(p, x.size()); }
  if (fault == 2 && !used_n.count(ren.begin()->second) && in.regions[0].material != in.materials.front().name) c.discard();
  c.note(xml);
  bool threw = false;
  std::string msg;
  auto crash = pbt::in_child([&] {
    Doc d(xml);
    // the source need not lie in a material here
    try { World w(d.root); PerturbationSet ps(d.root.child("perturbations"), w); EstimatorSet es(d.root.child("estimators"), w, ps, 1); }
    catch (const std::exception& e) { fprintf(stderr, "ERR:%s", e.what()); _exit(7); }
  }, 20);
  if (!crash.empty()) {
    if (crash.rfind("exit status 7", 0) == 0) { threw = true; msg = crash; }
    else c.fail("building the problem ended the process: " + crash);
  }
  if (fault == 0 || fault == 7) c.check(!threw, "valid input rejected: " + msg);
  else {
    c.check(threw, "unknown name accepted: " + want);
    c.check(msg.find(want) != std::string::npos, "the error does not mention the unknown name: " + msg);
    c.label(cat("fault ", fault));
  }
  if (fault == 0 || fault == 7) {
    Doc d(xml);
    World w(d.root);
    for (auto& s : pool) {
      bool got = true;
      std::string name;
      std::shared_ptr<const CSGSurface> sp;
      try { sp = w.FindSurfaceByName(s); name = sp->name; } catch (const std::runtime_error&) { got = false; }
      c.check(got == (used_s.count(s) > 0), "surface lookup of \"" + s + "\"");
      c.check(!got || name == s, "surface lookup of \"" + s + "\" returned \"" + name + "\"");
      if (got) for (auto& f : in.surfaces) if (f.name == s) for (int k = 0; k < 4; k++) {
        V3 p = gen_point_near(c, f, 2);
        if (std::fabs(f.value(p)) <= f.band(p)) continue;
        c.check(sp->Contains(P(p)) == f.inside(p), "surface \"" + s + "\" is not the one the input defines");
      }
      got = true;
      std::shared_ptr<const Nuclide> np;
      try { np = w.FindNuclideByName(s); } catch (const std::runtime_error&) { got = false; }
      c.check(got == (used_n.count(s) > 0), "nuclide lookup of \"" + s + "\"");
      if (got) for (auto& n : in.nuclides) if (n.name == s) {
        Particle p{P({}), Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
        c.check(np->name == s && np->GetTotal(p) == n.neutron->capture[0], "nuclide \"" + s + "\" is not the one the input defines");
      }
    }
    PerturbationSet perturbations(d.root.child("perturbations"), w);
    EstimatorSet set(d.root.child("estimators"), w, perturbations, 1);
    std::vector<std::string> ask = {"t", "t0 ", "T0", "t1", "t01", "", "nope"};
    for (auto& t : in.tallies) ask.push_back(t.name);
    for (auto& s : ask) {
      bool there = false, got = true;
      for (auto& t : in.tallies) there |= t.name == s;
      std::string name;
      try { name = set.FindEstimatorByName(s).name; } catch (const std::exception&) { got = false; }
      c.check(got == there && (!got || name == s), "tally lookup of \"" + s + "\" returned \"" + name + "\"");
    }
  }
  c.nontrivial();
}

PBT_MAIN((pbt::Property{"C02",
  "locate: one case is 1-5 random surfaces (shared between regions, either sense, nested or overlapping), 1-6 regions with gaps and void, and 15 query points with a random direction each; non-trivial if points fell in a region and also in a gap or a region that is not the first. names: inputs whose names are prefixes/extensions/case variants of each other, with and without one unknown name (tally surface, nuclide, material, region surface, perturbed nuclide, sensitivity); always non-trivial.",
  {"Points within double rounding of a surface of the input are not decided.", "Which of two surfaces at nearly the same distance is reported is not decided."},
  {{"locate", locate, 240000, 2000000}, {"names", names, 12000, 60000}}}))
