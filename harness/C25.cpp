#include "sim.hpp"
#include "cegen.hpp"
#include "Cell.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
struct Field { int kind = 0; double c = 293.6; V3 g; double b = 0, lo = 0, hi = 0; // 0 none 1 constant 2 linear
  Ld at(V3 p) const { return kind == 2 ? (Ld)g.x * p.x + (Ld)g.y * p.y + (Ld)g.z * p.z + b : (Ld)c; }
  Ld mag(V3 p) const { return kind == 2 ? std::fabs((Ld)g.x * p.x) + std::fabs((Ld)g.y * p.y) + std::fabs((Ld)g.z * p.z) + std::fabs(b) : 0; }
  bool uniform() const { return kind != 2 || (g.x == 0 && g.y == 0 && g.z == 0); }
  double lower() const { return kind == 2 ? lo : c; }
  double upper() const { return kind == 2 ? hi : c; }
  std::string xml() const { return kind == 0 ? "" : kind == 1 ? "<constant c=\"" + num(c) + "\"/>" :
    "<linear><bounds lower=\"" + num(lo) + "\" upper=\"" + num(hi) + "\"/><intercept b=\"" + num(b) + "\"/>" + dir_xml(g, "gradient") + "</linear>"; }
};
static Field gen_field(Case& c, bool any_value) {
  Field f;
  f.kind = c.below(3);
  if (f.kind == 1) f.c = any_value ? c.real(-500, 3000) : c.uniform(100, 1500);
  if (f.kind == 2) {
    double s = any_value ? c.logreal(1e-3, 1e3) : 30;
    switch (c.below(4)) { case 0: break; case 1: f.g = gen_dir(c) * s; break; default: f.g = {c.real(-s, s), c.real(-s, s), c.real(-s, s)}; }
    f.b = any_value ? c.real(-500, 3000) : c.uniform(500, 1000);
    f.lo = any_value ? c.real(-500, 3000) : 100; f.hi = f.lo + (any_value ? c.real(0, 3000) : 2000);
  }
  return f;
}
static void same(Case& c, const ScalarField& got, const Field& f, const std::string& what, V3 p) {
  Ld want = f.at(p);
  double v = got.at(P(p));
  c.check(std::fabs(v - want) <= 1e-14L * f.mag(p), cat(what, " at ", p.str(), " is ", v, ", expected ", (double)want));
  c.check(got.lower_bound == f.lower() && got.upper_bound == f.upper(), cat(what, ": bounds are ", got.lower_bound, " to ", got.upper_bound, ", expected ", f.lower(), " to ", f.upper()));
  c.check(got.IsConstant() == f.uniform(), cat(what, ": reported as ", got.IsConstant() ? "uniform" : "varying"));
}
static V3 point(Case& c, double s) { return {c.real(-s, s), c.real(-s, s), c.real(-s, s)}; }
static void field(Case& c) {
  Field f = gen_field(c, true);
  if (f.kind == 0) f.kind = 1;
  Doc d("<minimc><temperature>" + f.xml() + "</temperature></minimc>");
  c.note(f.xml());
  auto s = ScalarField::Create(d.root.child("temperature").first_child());
  for (int i = 0; i < 5; i++) same(c, *s, f, "field", point(c, c.chance(1, 3) ? 1000 : 3));
  c.evals(5);
  c.nontrivial(!f.uniform());
}
static void regions(Case& c) {
  Input in;
  GeomOpt o; o.scale = 3;
  gen_regions(c, in, o);
  Files files;
  double T0 = c.uniform(150, 1200);
  CeNuclide n; n.name = "a"; n.awr = c.chance(1, 2) ? c.uniform(0.5, 1) : c.uniform(2, 60);
  CeOpt co; co.T0 = T0; co.fission = false; co.force_total = c.chance(1, 2); co.capture = c.chance(1, 2);
  co.lo = 1e-11; co.hi = 1e-6;
  n.neutron = gen_ce(c, co, n.awr);
  if (!n.neutron->scatter) n.neutron->scatter = Eval{gen_xs(c, {1e-9}, 1), T0}, n.neutron->total.reset();
  in.nuclides_xml = ce_xml({n}, files);
  in.materials = {{"m", 1, {{"a", 1}}}};
  Field f = gen_field(c, false);
  in.temperature_xml = f.xml();
  for (auto& r : in.regions) if (!r.is_void) { r.material = "m"; if (c.chance(1, 2)) r.temperature = c.chance(1, 8) ? 0 : c.uniform(100, 1500); }
  c.note(in.xml());
  Doc d(in.xml());
  World w(d.root);
  c.check(w.HasConstantTemperature() == f.uniform(), "global temperature reported as uniform or varying wrongly");
  bool own = false, global = false;
  for (int k = 0; k < 8; k++) {
    V3 p = point(c, 3.5);
    bool clear = true;
    int r = in.locate(p, &clear);
    if (r < 0 || !clear) continue;
    const Cell& cell = w.FindCellContaining(P(p));
    if (in.regions[r].is_void) continue;
    c.check(cell.name == in.regions[r].name, "point located in region " + cell.name + " instead of " + in.regions[r].name);
    Field want = f;
    if (in.regions[r].temperature) { want = Field{}; want.kind = 1; want.c = *in.regions[r].temperature; own = true; } else global = true;
    same(c, *cell.temperature, want, "temperature of region " + cell.name, p);
    double T = (double)want.at(p), E = c.logreal(2e-11, 5e-7);
    if (ce_edge(n, true, E, T)) continue;
    Particle q{P(p), Direction{1, 0, 0}, E, Particle::Type::neutron, 1};
    q.SetCell(cell);
    double xs = cell.material->GetMicroscopicTotal(q); Ld ref = ce_total(n, true, E, T);
    c.check(std::fabs(xs - ref) <= 1e-9L * ref, cat("total cross section at ", p.str(), ", E=", E, ", T=", T, " is ", xs, ", expected ", (double)ref));
    c.evals(1);
  }
  if (own) c.label("own temperature");
  if (global) c.label(f.kind == 0 ? "room temperature" : f.kind == 1 ? "global constant" : "global gradient");
  c.nontrivial(own && global);
}
PBT_MAIN((pbt::Property{"C25",
  "field: generated constant and linear fields (including zero and axis-parallel gradients, any bounds) evaluated at 5 points; non-trivial if the field varies. regions: generated worlds of up to 12 regions, each with or without its own temperature, under no, constant or linear global field; value, bounds and uniformity of the region temperature at 8 points, and the total cross section of a generated continuous nuclide there (free-gas adjusted to the local temperature) against the documented rules; non-trivial if both own and global temperatures were seen.",
  {"Points on a surface to rounding are skipped.", "Cross section comparison is skipped where a rule's threshold is met to rounding."},
  {{"field", field, 160000, 640000}, {"regions", regions, 24000, 96000}}}))
