// Whole-run helpers: solving an Input with the code under test, reading its
// report, generated worlds, and an independent reference random walk.
#pragma once
#include "glue.hpp"
#include "mggen.hpp"
#include "Estimator.hpp"
#include "FixedSource.hpp"
#include <cstring>

namespace model {
// --- report --------------------------------------------------------------
struct Entry { std::string name; bool sens = false; std::vector<double> cosine, energy; bool has_cos = false, has_en = false; std::vector<double> mean, sd; std::vector<std::string> raw_mean, raw_sd; };
inline std::vector<std::string> lines_of(const std::string& t) {
  std::vector<std::string> v; size_t a = 0;
  while (a <= t.size()) { size_t b = t.find('\n', a); if (b == std::string::npos) { if (a < t.size()) v.push_back(t.substr(a)); break; } v.push_back(t.substr(a, b - a)); a = b + 1; }
  return v;
}
inline std::vector<std::string> items_of(const std::string& l) {
  std::vector<std::string> v; std::string cur;
  for (char ch : l) { if (ch == ',') { v.push_back(cur); cur.clear(); } else if (ch != ' ' || !cur.empty()) cur += ch; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
inline std::vector<double> numbers_of(const std::string& l) { std::vector<double> v; for (auto& s : items_of(l)) v.push_back(strtod(s.c_str(), nullptr)); return v; }
// tolerant of blank lines; throws Failure on anything it cannot read
inline std::vector<Entry> parse_report(const std::string& text) {
  std::vector<Entry> out;
  auto L = lines_of(text);
  auto rule = [](const std::string& s, char ch) { return !s.empty() && s.find_first_not_of(ch) == std::string::npos; };
  for (size_t i = 0; i < L.size();) {
    if (L[i].empty()) { i++; continue; }
    if (i + 1 < L.size() && rule(L[i + 1], '=') && L[i + 1].size() == L[i].size()) {
      out.emplace_back(); out.back().name = L[i]; out.back().sens = true; i += 2; continue;
    }
    if (out.empty() || i + 2 >= L.size() || !rule(L[i + 1], '-')) throw pbt::Failure{"unreadable report near line \"" + L[i] + "\" of:\n" + text};
    Entry& e = out.back();
    const std::string &h = L[i], &v = L[i + 2];
    if (h == "cosine") { e.sens = false; e.has_cos = v != "none"; if (e.has_cos) e.cosine = numbers_of(v); }
    else if (h == "energy") { e.sens = false; e.has_en = v != "none"; if (e.has_en) e.energy = numbers_of(v); }
    else if (h == "mean") { e.raw_mean = items_of(v); e.mean = numbers_of(v); }
    else if (h == "std dev") { e.raw_sd = items_of(v); e.sd = numbers_of(v); }
    else throw pbt::Failure{"unexpected section \"" + h + "\" in the report"};
    i += 3;
  }
  return out;
}
// --- solving -------------------------------------------------------------
struct Solved {
  std::vector<std::vector<double>> sum; // exact score sums per tally and bin
  std::string text;
  std::vector<Entry> entries() const { return parse_report(text); }
};
inline Solved solve(const Input& in, bool text = false) {
  Doc d(in.xml());
  FixedSource f(d.root);
  EstimatorSet r = f.Solve();
  Solved s;
  for (auto& t : in.tallies) {
    auto& e = r.FindEstimatorByName(t.name);
    std::vector<double> v;
    for (size_t i = 0; i < t.size(); i++) v.push_back(e.GetScore(i, 1.0));
    s.sum.push_back(std::move(v));
  }
  if (text || !in.perturbations.empty()) s.text = r.to_string();
  return s;
}
// two-sided p-value that independent values have the given mean
inline double mean_p(const std::vector<double>& v, double want) {
  double m = 0, q = 0, n = v.size();
  for (double x : v) m += x;
  m /= n;
  for (double x : v) q += (x - m) * (x - m);
  double se = std::sqrt(q / (n - 1) / n);
  if (se < 1e-12 * (std::fabs(want) + 1e-300)) return std::fabs(m - want) <= 1e-9 * std::fabs(want) ? 1 : 0;
  return pbt::normal_p2((m - want) / se);
}
// --- worlds --------------------------------------------------------------
struct GeomOpt { double scale = 1; V3 offset; int max_depth = 3; bool voids = true; bool coincident = true; };
// Names that are easily taken for each other: each the beginning or the end of
// the next, the same but for case, or with the same letters in them. Different
// kinds of things share them.
struct Names {
  int style; std::vector<int> order;
  explicit Names(pbt::Case& c) : style{(int)c.below(5)} { for (int i = 0; i < 16; i++) order.push_back(i); for (int i = 16; i > 1; i--) std::swap(order[i - 1], order[c.below(i)]); }
  std::string operator()(size_t i) const {
    if (i < order.size()) i = order[i];
    std::string s;
    switch (style) {
    case 0: return "x" + std::string(i, '1');
    case 1: return std::string(i, '1') + "x";
    case 2: s = "abcdefgh"; for (size_t b = 0; b < s.size(); b++) if (i >> b & 1) s[b] = std::toupper(s[b]); return s;
    case 3: s = "x" + std::to_string(i + 1); return s;
    default: return "name which takes more than the space of a short string, number " + std::to_string(i);
    }
  }
};
inline void confuse_regions(pbt::Case& c, Input& in) {
  if (!c.chance(1, 2)) return;
  Names n(c);
  for (size_t i = 0; i < in.surfaces.size(); i++) in.surfaces[i].name = n(i);
  for (size_t i = 0; i < in.regions.size(); i++) if (!in.regions[i].is_void) in.regions[i].name = n(i);
}
// Splits space recursively: the leaves cover everything and do not overlap;
// everything outside the outer surface is void. Regions carry no materials yet.
// Returns for every region whether it is a leaf inside.
inline void gen_regions(pbt::Case& c, Input& in, const GeomOpt& o) {
  auto S = [&](Surf s) { s.name = "s" + std::to_string(in.surfaces.size()); in.surfaces.push_back(s); return (int)in.surfaces.size() - 1; };
  double L = o.scale;
  int outer;
  std::vector<std::pair<int, int>> root;
  V3 centre = o.offset;
  if (c.chance(1, 4)) { // capped cylinder
    Surf cy; cy.kind = Surf::cylinderx; cy.r = L * c.uniform(0.5, 1.5) + std::hypot(o.offset.y, o.offset.z);
    Surf a; a.kind = Surf::planex; a.r = o.offset.x - L * c.uniform(0.5, 1.5);
    Surf b = a; b.r = o.offset.x + L * c.uniform(0.5, 1.5);
    int ia = S(a), ib = S(b), ic = S(cy);
    root = {{ic, -1}, {ia, +1}, {ib, -1}};
    // outside pieces, each bounded so that every point has a region
    auto v = [&](std::vector<std::pair<int, int>> s) { Region r; r.is_void = true; r.sides = s; in.regions.push_back(r); };
    if (c.chance(1, 2)) { v({{ia, -1}}); v({{ib, +1}}); v({{ic, +1}}); }
    else { v({{ic, +1}}); v({{ia, -1}, {ic, -1}}); v({{ib, +1}, {ic, -1}}); }
    outer = ic;
  } else {
    Surf s; s.kind = Surf::sphere; s.c = o.offset; s.r = L * c.uniform(1, 1.5);
    outer = S(s);
    root = {{outer, -1}};
    Region r; r.is_void = true; r.sides = {{outer, +1}}; in.regions.push_back(r);
  }
  struct Node { std::vector<std::pair<int, int>> sides; int depth; };
  std::vector<Node> todo{{root, 0}};
  while (!todo.empty()) {
    Node n = todo.back(); todo.pop_back();
    if (n.depth < o.max_depth && in.regions.size() + todo.size() < 12 && c.chance(n.depth == 0 ? 5 : 2, n.depth == 0 ? 6 : 4)) {
      // split by an existing or a fresh surface
      int k = -1;
      if (c.chance(1, 5)) { int t = c.below(in.surfaces.size()); bool used = false; for (auto& s : n.sides) used |= s.first == t; if (!used) k = t; }
      if (k < 0) {
        Surf s;
        int kind = c.below(3);
        if (kind == 0) { s.kind = Surf::sphere; s.c = centre + V3{c.real(-.6, .6), c.real(-.6, .6), c.real(-.6, .6)} * L; s.r = L * c.uniform(0.1, 0.9); }
        else if (kind == 1) { s.kind = Surf::planex; s.r = centre.x + L * c.real(-0.7, 0.7); }
        else { s.kind = Surf::cylinderx; s.r = std::max(L * 0.05, std::hypot(centre.y, centre.z) + L * c.uniform(-0.8, 0.8)); }
        if (!o.coincident) for (int t = 0; t < 8; t++) { bool hit = false; for (auto& q : in.surfaces) hit |= q.kind == s.kind && std::fabs(q.r - s.r) < 2e-3 * L && (q.c - s.c).norm() < 2e-3 * L; if (hit) s.r += 3.7e-3 * L; }
        k = S(s);
      }
      for (int sd : {-1, +1}) { Node m = n; m.sides.push_back({k, sd}); if (c.chance(1, 2)) std::swap(m.sides.front(), m.sides.back()); m.depth++; todo.push_back(m); }
    } else {
      Region r; r.sides = n.sides;
      r.is_void = o.voids && n.depth > 0 && c.chance(1, 10);
      if (!r.is_void) r.name = "c" + std::to_string(in.regions.size());
      if (c.chance(1, 2)) in.regions.push_back(r); else in.regions.insert(in.regions.begin(), r);
    }
  }
  bool any = false; for (auto& r : in.regions) any |= !r.is_void;
  if (!any) for (auto& r : in.regions) if (r.sides[0].second < 0 || r.sides.size() > 1) { bool inner = false; for (auto& s : r.sides) inner |= s.first == outer && s.second < 0; if (inner) { r.is_void = false; r.name = "c0x"; break; } }
  confuse_regions(c, in);
}
// a start point inside a non-void region, clear of every surface
inline bool gen_start(pbt::Case& c, Input& in, const GeomOpt& o, double clearance = 1e-6) {
  for (int t = 0; t < 30; t++) {
    V3 p = o.offset + V3{c.real(-1.2, 1.2), c.real(-1.2, 1.2), c.real(-1.2, 1.2)} * o.scale;
    bool ok = true;
    for (auto& s : in.surfaces) if (std::fabs(s.value(p)) < clearance * o.scale * (s.kind == Surf::planex ? 1 : o.scale)) ok = false;
    int r = in.locate(p);
    if (ok && r >= 0 && !in.regions[r].is_void) { in.pos = p; return true; }
  }
  return false;
}
// --- exact flight --------------------------------------------------------
struct Crossing { int surface; Ld at; int from, to; };
// Crossings of the ideal line until void. *clear is cleared when rounding could
// change the sequence (near-tangent, near-simultaneous crossings, thin regions).
inline std::vector<Crossing> trace(const Input& in, V3 o, V3 d, double scale, double margin, bool* clear, int max = 200) {
  std::vector<Crossing> out;
  Ld t = 0;
  int cur = in.locate(o, clear);
  std::vector<std::vector<Ld>> R;
  for (auto& s : in.surfaces) {
    R.push_back(s.roots(o, d));
    Ld A, B, C; s.coeffs(o, d, A, B, C);
    Ld L = s.extent(o);
    if (s.kind != Surf::planex) {
      if (A > 0 && A < 1e-4L) *clear = false;
      if (A > 0 && std::fabs(B * B - 4 * A * C) < margin * scale * scale) *clear = false;
    } else if (B != 0 && std::fabs(B) < margin) *clear = false;
    (void)L;
  }
  std::vector<std::pair<Ld, int>> all;
  for (size_t i = 0; i < R.size(); i++) for (Ld r : R[i]) if (r > -margin * scale) all.push_back({r, (int)i});
  std::sort(all.begin(), all.end());
  for (size_t i = 0; i < all.size(); i++) {
    if (std::fabs(all[i].first) < margin * scale) *clear = false;
    if (i && all[i].first - all[i - 1].first < margin * scale) *clear = false;
  }
  while ((int)out.size() < max && cur >= 0 && !in.regions[cur].is_void) {
    Ld best = std::numeric_limits<Ld>::infinity(); int bi = -1;
    for (auto& [r, i] : all) {
      if (r <= t) continue;
      bool mine = false;
      for (auto& s : in.regions[cur].sides) mine |= s.first == i;
      if (mine) { best = r; bi = i; break; }
    }
    if (bi < 0) { *clear = false; break; }
    Ld nxt = best + margin * scale / 2;
    V3 q{(double)(o.x + d.x * nxt), (double)(o.y + d.y * nxt), (double)(o.z + d.z * nxt)};
    int to = in.locate(q, clear);
    out.push_back({bi, best, cur, to});
    t = best; cur = to;
  }
  return out;
}
// --- reference transport -------------------------------------------------
struct RefTally { std::vector<double> score; };
// Exact linear transport of a multigroup Input, one history at a time.
struct RefMC {
  const Input& in;
  // micro total of each material per (type, group)
  std::vector<std::vector<std::vector<double>>> sigma; // [mat][type][g]
  std::vector<std::vector<int>> nucs;                   // nuclide indices
  std::vector<std::vector<double>> frac;
  std::vector<int> region_mat;
  double nudge;
  explicit RefMC(const Input& i, double scale) : in{i}, nudge{1e-9 * scale} {
    for (auto& m : in.materials) {
      double s = 0; for (auto& n : m.nuclides) s += n.second;
      std::vector<int> id; std::vector<double> f;
      for (auto& n : m.nuclides) { for (size_t k = 0; k < in.nuclides.size(); k++) if (in.nuclides[k].name == n.first) { id.push_back(k); break; } f.push_back(n.second / s); }
      nucs.push_back(id); frac.push_back(f);
      std::vector<std::vector<double>> v(2, std::vector<double>(in.groups, 0));
      for (size_t k = 0; k < id.size(); k++) for (int ty = 0; ty < 2; ty++) { auto& d = ty ? in.nuclides[id[k]].photon : in.nuclides[id[k]].neutron; if (d) for (int g = 0; g < in.groups; g++) v[ty][g] += f[k] * mg_total(*d, in.groups, g); }
      sigma.push_back(v);
    }
    for (auto& r : in.regions) { int m = -1; for (size_t k = 0; k < in.materials.size(); k++) if (!r.is_void && in.materials[k].name == r.material) m = k; region_mat.push_back(m); }
  }
  static V3 iso(pbt::Rng& r) { return smooth_dir(r); }
  struct P { V3 x, d; int g; int type; };
  // runs one history; calls on_cross(surface, particle) for each crossing
  template <class F> void history(pbt::Rng& r, V3 d0, int g0, int type0, F on_cross) const {
    std::vector<P> stack{{in.pos, d0, g0, type0}};
    size_t steps = 0;
    while (!stack.empty()) {
      P p = stack.back(); stack.pop_back();
      int cell = in.locate(p.x);
      while (true) {
        if (++steps > 1000000) throw pbt::Failure{"reference walk does not end"};
        int m = region_mat[cell];
        double S = in.materials[m].aden * sigma[m][p.type][p.g];
        double dc = S > 0 ? -std::log(r.open()) / S : std::numeric_limits<double>::infinity();
        Ld ds = std::numeric_limits<Ld>::infinity(); int sf = -1;
        for (auto& s : in.regions[cell].sides) for (Ld t : in.surfaces[s.first].roots(p.x, p.d)) if (t > 0 && t < ds) { ds = t; sf = s.first; }
        if (dc < ds) {
          p.x = p.x + p.d * dc;
          // choose the nuclide, then the reaction
          double u = r.unit() * sigma[m][p.type][p.g], a = 0; size_t k = 0;
          for (; k + 1 < nucs[m].size(); k++) { auto& dd = p.type ? in.nuclides[nucs[m][k]].photon : in.nuclides[nucs[m][k]].neutron; a += frac[m][k] * mg_total(*dd, in.groups, p.g); if (a > u) break; }
          const Mg& n = p.type ? *in.nuclides[nucs[m][k]].photon : *in.nuclides[nucs[m][k]].neutron;
          int G = in.groups;
          double v = r.unit() * mg_total(n, G, p.g);
          double cap = n.capture.empty() ? 0 : n.capture[p.g], sc = mg_scatter(n, G, p.g);
          if (v < cap) break;
          v -= cap;
          if (v < sc) {
            double w = r.unit() * sc, b = 0; int to = 0;
            for (; to + 1 < G; to++) { b += n.scatter[to * G + p.g]; if (b > w) break; }
            while (to > 0 && n.scatter[to * G + p.g] == 0) to--;
            p.g = to; p.d = iso(r);
            continue;
          }
          if (n.fis_xs.empty()) break;
          double nu = n.nubar[p.g]; int y = (int)(nu + r.unit());
          double cs = 0; for (int q = 0; q < G; q++) cs += n.chi[q * G + p.g];
          for (int i = 0; i < y; i++) {
            double w = r.unit() * cs, b = 0; int to = 0;
            for (; to + 1 < G; to++) { b += n.chi[to * G + p.g]; if (b > w) break; }
            stack.push_back({p.x, iso(r), to, 0});
          }
          break;
        }
        if (sf < 0) throw pbt::Failure{"reference walk escapes"};
        double t = (double)ds + nudge;
        p.x = p.x + p.d * t;
        cell = in.locate(p.x);
        if (cell < 0) throw pbt::Failure{"reference walk leaves the geometry"};
        on_cross(sf, p);
        if (in.regions[cell].is_void) break;
      }
    }
  }
};
} // namespace model
