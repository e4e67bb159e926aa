#include "sim.hpp"
using namespace model;
using pbt::Case;
using pbt::cat;
static V3 unit_of(V3 d) { return V(D(d)); }
// A world of nearly transparent material, one tally per surface.
static bool world(Case& c, Input& in, GeomOpt& o) {
  o.scale = c.chance(1, 2) ? 1 : c.logreal(1e-3, 1e3);
  double off = c.chance(1, 2) ? 0 : c.logreal(0.1, 300) * o.scale;
  o.offset = V3{c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)} * off;
  o.max_depth = c.range(1, 4);
  gen_regions(c, in, o);
  if (!gen_start(c, in, o)) return false;
  in.nuclides = {absorber("a", 1)};
  in.materials = {{"m", 1e-13 / o.scale / (1 + off / o.scale), {{"a", 1}}}, {"black", 1e13 / o.scale, {{"a", 1}}}};
  for (auto& r : in.regions) r.material = "m";
  for (auto& s : in.surfaces) in.tallies.push_back(Tally{"t" + s.name, s.name});
  for (size_t i = in.tallies.size(); i-- > 1;) std::swap(in.tallies[i], in.tallies[c.below(i + 1)]);
  in.histories = 1;
  if (c.chance(1, 2)) in.tracking = c.chance(1, 2) ? "surface" : "cell delta";
  return true;
}
static bool ray(Case& c, Input& in, const GeomOpt& o, std::vector<Crossing>& tr) {
  V3 d = gen_dir(c);
  in.direction_xml = dir_xml(d);
  in.seed = c.range(1, 1000000);
  bool clear = true;
  tr = trace(in, in.pos, unit_of(d), o.scale, 1e-6, &clear);
  return clear;
}
static void compare(Case& c, const Input& in, const std::vector<Crossing>& tr, size_t n) {
  std::map<std::string, double> want;
  std::string path;
  for (size_t i = 0; i < n; i++) { want[in.surfaces[tr[i].surface].name]++; path += " " + in.surfaces[tr[i].surface].name; }
  auto s = solve(in);
  for (size_t i = 0; i < in.tallies.size(); i++)
    if (s.sum[i][0] != want[in.tallies[i].surface]) c.fail(cat("surface ", in.tallies[i].surface, " was crossed ", s.sum[i][0], " times, expected ", want[in.tallies[i].surface], " (expected path:", path, ")\n", in.xml()));
}
static void flight(Case& c) {
  Input in; GeomOpt o;
  if (!world(c, in, o)) c.discard();
  c.note(in.xml());
  int used = 0; bool deep = false;
  for (int k = 0; k < 8; k++) {
    std::vector<Crossing> tr;
    if (!ray(c, in, o, tr)) continue;
    compare(c, in, tr, tr.size());
    used++; deep |= tr.size() > 1;
  }
  if (!used) c.discard();
  c.evals(used);
  c.nontrivial(deep);
}
// The n-th region on the way is opaque: exactly the crossings before it happen.
static void order(Case& c) {
  Input in; GeomOpt o;
  if (!world(c, in, o)) c.discard();
  c.note(in.xml());
  int used = 0; bool deep = false;
  for (int k = 0; k < 5; k++) {
    std::vector<Crossing> tr;
    if (!ray(c, in, o, tr)) continue;
    std::vector<int> path; // regions entered
    for (auto& x : tr) path.push_back(x.to);
    size_t j = c.below(path.size());
    if (in.regions[path[j]].is_void) { if (path.size() > 1) j = 0; if (in.regions[path[j]].is_void) continue; }
    int target = path[j];
    int start = in.locate(in.pos);
    if (target == start) continue;
    size_t n = 0;
    while (path[n] != target) n++;
    Input v = in;
    v.regions[target].material = "black";
    compare(c, v, tr, n + 1);
    used++; deep |= n + 1 < tr.size();
  }
  if (!used) c.discard();
  c.evals(used);
  c.nontrivial(deep);
}
PBT_MAIN((pbt::Property{"C03",
  "Generated worlds: space is split recursively by spheres, x-planes and x-cylinders into up to 12 regions and voids, at scales 1e-3 to 1e3 and up to 300 extents from the origin, with nearly transparent material; single rays run as whole fixed-source runs with one tally per surface under both tracking methods. flight: every surface's count against the crossings of the ideal line traced in extended precision until void; order: one region on the way is made opaque and exactly the crossings up to it must be counted. Non-trivial when the ray crosses more than one surface (order: when crossings remain behind the opaque region).",
  {"Rays that pass within 1e-6 of the world's size of a tangency, an edge or a second surface are skipped: rounding decides their path."},
  {{"flight", flight, 36000, 150000}, {"order", order, 36000, 144000}}}))
