#include "geomgen.hpp"
#include "CSGSurface.hpp"
#include "Point.hpp"
using namespace model;
using pbt::cat;
using pbt::Case;

static std::unique_ptr<const CSGSurface> make(const Surf& s, const Surf& decoy) {
  // a decoy surface shares the node so that lookup by name matters
  Doc d("<minimc><surfaces>\n" + decoy.xml() + s.xml() + "</surfaces></minimc>");
  return CSGSurface::Create(d.root, s.name);
}
static Point P(V3 v) { return Point{v.x, v.y, v.z}; }
static double pick_scale(Case& c) { static const double sc[] = {1, 10, 0.01, 1000}; return sc[c.below(4)]; }

static void contains(Case& c) {
  double scale = pick_scale(c);
  Surf s = gen_surface(c, "s", scale), dec = gen_surface(c, "other", scale);
  auto surf = make(s, dec);
  c.check(surf->name == "s", "surface has the wrong name " + surf->name);
  c.note(s.xml());
  int n = 12, near = 0, in = 0;
  for (int i = 0; i < n; i++) {
    V3 p = gen_point_near(c, s, scale);
    Ld v = s.value(p);
    bool got = surf->Contains(P(p));
    if (s.kind == Surf::planex ? false : std::fabs(v) <= s.band(p)) continue;
    if (std::fabs(v) < 1e-3L * s.r * s.r) near++;
    bool want = v < 0;
    in += want;
    if (got != want) {
      c.note("point ", p.str());
      c.fail(cat("point reported ", got ? "inside" : "outside", " but the surface function there is ", (double)v, " (", s.kind == 0 ? "sphere" : s.kind == 1 ? "planex" : "cylinderx", ")"));
    }
  }
  c.evals(n);
  c.label(s.kind == 0 ? "sphere" : s.kind == 1 ? "planex" : "cylinderx");
  if (near) c.label("within 0.1% of the surface");
  c.nontrivial(in > 0 && in < n);
}

// exact on-surface points where double arithmetic is exact
static void on_surface(Case& c) {
  Surf s;
  s.name = "s";
  s.kind = (Surf::Kind)c.below(3);
  s.r = s.kind == Surf::planex ? dyadic(c, -8, 8) : 0.5 + dyadic(c, 0, 8);
  if (s.kind == Surf::sphere) s.c = {dyadic(c, -8, 8), dyadic(c, -8, 8), dyadic(c, -8, 8)};
  Surf dec = s;
  dec.name = "t"; dec.r += 1;
  auto surf = make(s, dec);
  c.note(s.xml());
  static const V3 ax[6] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  int a = c.below(6);
  V3 p;
  if (s.kind == Surf::sphere) p = s.c + ax[a] * s.r;
  else if (s.kind == Surf::planex) p = {s.r, dyadic(c, -8, 8), dyadic(c, -8, 8)};
  else { V3 q = ax[a % 3 == 0 ? 1 : a]; p = q * s.r; p.x = dyadic(c, -8, 8); }
  c.check(s.value(p) == 0, "harness: not on the surface");
  c.note("point ", p.str());
  c.check(!surf->Contains(P(p)), "a point exactly on the surface is reported strictly inside");
  for (const auto& d : ax) {
    Ld want = s.distance(p, d);
    double got = surf->Distance(P(p), Direction{d.x, d.y, d.z});
    c.note("dir ", d.str(), " want ", (double)want, " got ", got);
    if (std::isinf(want)) c.check(std::isinf(got) && got > 0, "distance from an on-surface start should be infinite");
    else c.check(std::fabs(got - (double)want) <= 1e-12 * (1 + std::fabs((double)want)), "wrong distance from an on-surface start");
  }
  // rays that touch the surface there and nowhere else, from before and beyond
  if (s.kind != Surf::planex) for (const auto& d : ax) {
    bool along = s.kind == Surf::cylinderx ? d.x != 0 : false;
    V3 nrm = s.kind == Surf::sphere ? p - s.c : V3{0, p.y, p.z};
    if (d.dot(nrm) != 0 || along) continue;
    double t = dyadic(c, -8, 8);
    V3 q = p + d * t;
    double got = surf->Distance(P(q), Direction{d.x, d.y, d.z});
    c.note("touching ray from ", q.str(), " along ", d.str(), " got ", got);
    c.check(std::isinf(got) && got > 0, "a ray that only touches the surface is said to meet it");
  }
  c.evals(10);
  c.nontrivial();
}

static void distance(Case& c) {
  double scale = pick_scale(c);
  Surf s = gen_surface(c, "s", scale), dec = gen_surface(c, "other", scale);
  auto surf = make(s, dec);
  c.note(s.xml());
  int n = 12;
  bool hit = false, miss = false;
  for (int i = 0; i < n; i++) {
    V3 o = gen_point_near(c, s, scale), d;
    // aim at or past the surface, near-tangent, or anywhere
    int how = c.below(4);
    if (how == 0) d = gen_dir(c);
    else if (how == 1) { // towards a point near the surface
      V3 q = gen_point_near(c, s, scale) - o;
      d = q.norm() > 0 ? q.unit() : V3{1, 0, 0};
    }
    else if (how == 2) { // chosen impact parameter
      V3 u = gen_dir(c), w = u.cross(std::fabs(u.x) < 0.8 ? V3{1, 0, 0} : V3{0, 1, 0}).unit();
      double h = s.kind == Surf::planex ? c.real(-scale, scale) : s.r * (1 + c.sign() * c.logreal(1e-7, 0.9));
      o = s.c + w * h + u * c.uniform(-3 * scale, 3 * scale);
      d = u;
    }
    else { d = gen_dir(c); o = o - d * c.uniform(0, 3 * scale); }
    Direction dir{d.x, d.y, d.z};
    V3 dd{dir.Dot(Point{1, 0, 0}), dir.Dot(Point{0, 1, 0}), dir.Dot(Point{0, 0, 1})};
    double got = surf->Distance(P(o), dir);
    c.check(got > 0, cat("distance ", got, " is not strictly positive; origin ", o.str(), " dir ", dd.str()));
    Ld A, B, C;
    s.coeffs(o, dd, A, B, C);
    std::string where = cat("origin ", o.str(), " direction ", dd.str(), " reported ", got);
    if (s.kind == Surf::planex) {
      Ld want = s.distance(o, dd);
      if (std::isinf(want)) { miss = true; c.check(std::isinf(got), where + ": the plane is never met"); }
      else { hit = true; c.check(std::fabs(got - want) <= 1e-12L * want + 1e-15L * std::fabs(s.r) / std::fabs((Ld)dd.x), where + cat(" expected ", (double)want)); }
      continue;
    }
    if (s.kind == Surf::cylinderx && A < 1e-9L && A > 0) continue; // undecided: rounding of 1 - u^2
    if (A == 0) { c.check(std::isinf(got), where + ": axis-parallel ray meets the cylinder"); c.label("axis-parallel"); continue; }
    Ld L = (s.kind == Surf::sphere ? (V3{o.x - s.c.x, o.y - s.c.y, o.z - s.c.z}).norm() : std::fabs(o.x) + std::hypot(o.y, o.z)) + s.r + (s.kind == Surf::sphere ? 1e-2 * s.c.norm() : 0);
    Ld disc = B * B - 4 * A * C, dn = 4e-13L * L * L;
    // rounding of the coefficients moves the discriminant by at most about dn
    if (std::fabs(disc) <= dn) { c.label("tangent within rounding"); continue; }
    if (disc < 0) { miss = true; c.check(std::isinf(got), where + ": the line misses the surface"); continue; }
    Ld cb = 1e-13L * L * L; // rounding of C: start indistinguishable from on-surface
    if (std::fabs(C) <= cb) { c.label("start within rounding"); continue; }
    Ld want = s.distance(o, dd);
    if (std::isinf(want)) { miss = true; c.check(std::isinf(got), where + ": the surface lies behind"); continue; }
    hit = true;
    c.check(!std::isinf(got), where + cat(": missed an intersection at ", (double)want));
    // first-order error of the root: dC + t dB + t^2 dA over |f'(t)|
    Ld slope = std::sqrt(disc);
    Ld tol = 2e-14L * (L * L + want * L + want * want) / slope + 1e-12L * want;
    c.check(std::fabs(got - want) <= tol, where + cat(" expected ", (double)want, " tolerance ", (double)tol));
    if (disc < 1e-3L * L * L) c.label("near-tangent");
  }
  c.evals(n);
  if (hit) c.label("hit");
  if (miss) c.label("miss");
  c.nontrivial(hit);
}

PBT_MAIN((pbt::Property{"C01",
  "One case is one generated surface (kind, centre, offset, radius over six decades, a decoy definition beside it) with 12 points or rays aimed inside, outside, close to and tangential to it. Non-trivial: contains - points on both sides; distance - at least one ray that meets the surface; on_surface - always (exactly representable on-surface starts along all axes, and rays that exactly touch the surface).",
  {"Points and rays within double rounding of the ideal surface are not decided.", "Rays within 3e-5 rad of the cylinder axis (but not parallel) are not decided."},
  {{"contains", contains, 480000, 3000000}, {"distance", distance, 480000, 3000000}, {"on_surface", on_surface, 160000, 640000}}}))
