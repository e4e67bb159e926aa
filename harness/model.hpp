// Input model: what an input file says, its XML text, and reference geometry.
#pragma once
#include "pbt.hpp"

#include "pugixml.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <optional>

namespace model {
using Ld = long double;
inline std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
struct V3 {
  double x = 0, y = 0, z = 0;
  V3 operator+(V3 o) const { return {x + o.x, y + o.y, z + o.z}; }
  V3 operator-(V3 o) const { return {x - o.x, y - o.y, z - o.z}; }
  V3 operator*(double s) const { return {x * s, y * s, z * s}; }
  double dot(V3 o) const { return x * o.x + y * o.y + z * o.z; }
  V3 cross(V3 o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
  double norm() const { return std::sqrt(dot(*this)); }
  V3 unit() const { double n = norm(); return {x / n, y / n, z / n}; }
  std::string str() const { return "(" + num(x) + ", " + num(y) + ", " + num(z) + ")"; }
};
// random unit vector, often special
inline V3 gen_dir(pbt::Case& c) {
  switch (c.below(8)) {
  case 0: { static const V3 ax[6] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}; return ax[c.below(6)]; }
  case 1: { // in a coordinate plane
    double a = c.uniform(0, 2 * M_PI);
    double p = std::cos(a), q = std::sin(a);
    switch (c.below(3)) { case 0: return V3{p, q, 0}.unit(); case 1: return V3{p, 0, q}.unit(); default: return V3{0, p, q}.unit(); }
  }
  case 2: { // close to the x axis
    double e = c.logreal(1e-8, 0.5), a = c.uniform(0, 2 * M_PI);
    return V3{c.sign(), e * std::cos(a), e * std::sin(a)}.unit();
  }
  default: {
    double mu = c.uniform(-1, 1), a = c.uniform(0, 2 * M_PI), s = std::sqrt(1 - mu * mu);
    return V3{mu, s * std::cos(a), s * std::sin(a)}.unit();
  }
  }
}
inline V3 smooth_dir(pbt::Rng& r) {
  double mu = 2 * r.unit() - 1, a = 2 * M_PI * r.unit(), s = std::sqrt(1 - mu * mu);
  return {mu, s * std::cos(a), s * std::sin(a)};
}

struct Surf {
  enum Kind { sphere, planex, cylinderx } kind = sphere;
  std::string name;
  V3 c;        // sphere centre
  double r = 1; // radius, or x of the plane
  // negative inside; exact to about 1e-19 relative
  Ld value(V3 p) const {
    switch (kind) {
    case sphere: { Ld x = (Ld)p.x - c.x, y = (Ld)p.y - c.y, z = (Ld)p.z - c.z; return x * x + y * y + z * z - (Ld)r * r; }
    case planex: return (Ld)p.x - r;
    default: return (Ld)p.y * p.y + (Ld)p.z * p.z - (Ld)r * r;
    }
  }
  // rounding band of value() for double arithmetic on the same expression
  Ld band(V3 p) const {
    const Ld e = 1e-14L;
    switch (kind) {
    case sphere: { Ld m = std::fabs((Ld)p.x) + std::fabs((Ld)c.x), n = std::fabs((Ld)p.y) + std::fabs((Ld)c.y), o = std::fabs((Ld)p.z) + std::fabs((Ld)c.z); return e * (m * m + n * n + o * o + (Ld)r * r); }
    case planex: return 0;
    default: return e * ((Ld)p.x * p.x + (Ld)p.y * p.y + (Ld)p.z * p.z + (Ld)r * r);
    }
  }
  bool inside(V3 p) const { return value(p) < 0; }
  // coefficients a t^2 + b t + c of the surface function along the ray
  void coeffs(V3 o, V3 d, Ld& A, Ld& B, Ld& C) const {
    switch (kind) {
    case sphere: { Ld x = (Ld)o.x - c.x, y = (Ld)o.y - c.y, z = (Ld)o.z - c.z;
      A = (Ld)d.x * d.x + (Ld)d.y * d.y + (Ld)d.z * d.z; B = 2 * (x * d.x + y * d.y + z * d.z); C = x * x + y * y + z * z - (Ld)r * r; return; }
    case planex: A = 0; B = d.x; C = (Ld)o.x - r; return;
    default: A = (Ld)d.y * d.y + (Ld)d.z * d.z; B = 2 * ((Ld)o.y * d.y + (Ld)o.z * d.z); C = (Ld)o.y * o.y + (Ld)o.z * o.z - (Ld)r * r;
    }
  }
  // all real roots in increasing order (double roots are dropped)
  std::vector<Ld> roots(V3 o, V3 d) const {
    Ld A, B, C;
    coeffs(o, d, A, B, C);
    if (A == 0) { if (B == 0) return {}; return {-C / B}; }
    Ld disc = B * B - 4 * A * C;
    if (!(disc > 0)) return {};
    Ld q = -(B + (B >= 0 ? std::sqrt(disc) : -std::sqrt(disc))) / 2;
    Ld r1 = q / A, r2 = q != 0 ? C / q : -B / A - r1;
    if (r1 > r2) std::swap(r1, r2);
    return {r1, r2};
  }
  Ld distance(V3 o, V3 d) const {
    for (Ld t : roots(o, d)) if (t > 0) return t;
    return std::numeric_limits<Ld>::infinity();
  }
  Ld extent(V3 o) const {
    switch (kind) {
    case sphere: return (o - c).norm() + r + 1e-2L * c.norm();
    case planex: return std::fabs(o.x) + std::fabs(r);
    default: return std::fabs(o.x) + std::hypot(o.y, o.z) + r;
    }
  }
  // can double arithmetic decide hit or miss, and the side of the start?
  bool decidable(V3 o, V3 d) const {
    if (kind == planex) return std::fabs((Ld)o.x - r) > 1e-14L * extent(o) && (d.x == 0 || std::fabs(d.x) > 1e-12);
    Ld A, B, C, L = extent(o);
    coeffs(o, d, A, B, C);
    if (A == 0) return true;
    if (A < 1e-9L) return false;
    return std::fabs(B * B - 4 * A * C) > 4e-13L * L * L && std::fabs(C) > 1e-13L * L * L;
  }
  // what double rounding may do to the distance `want`
  Ld dist_tol(V3 o, V3 d, Ld want) const {
    Ld A, B, C, L = extent(o);
    coeffs(o, d, A, B, C);
    if (kind == planex) return 1e-12L * want + 2e-15L * L / std::fabs(B);
    Ld slope = std::sqrt(std::max<Ld>(B * B - 4 * A * C, 1e-300L));
    return 2e-14L * (L * L + want * L + want * want) / slope + 1e-12L * want;
  }
  std::string xml() const {
    switch (kind) {
    case sphere: return "  <sphere name=\"" + name + "\"><center x=\"" + num(c.x) + "\" y=\"" + num(c.y) + "\" z=\"" + num(c.z) + "\"/><radius r=\"" + num(r) + "\"/></sphere>\n";
    case planex: return "  <planex name=\"" + name + "\" x=\"" + num(r) + "\"/>\n";
    default: return "  <cylinderx name=\"" + name + "\" r=\"" + num(r) + "\"/>\n";
    }
  }
};

struct Region {
  bool is_void = false;
  std::string name, material;
  std::optional<double> temperature;
  std::vector<std::pair<int, int>> sides; // surface index, -1 inside / +1 outside
};
struct Mg { // one particle type of a multigroup nuclide
  std::vector<double> capture, scatter, fis_xs, nubar, chi; // empty: absent
};
struct MgNuclide { std::string name; std::optional<Mg> neutron, photon; };
struct Mat { std::string name; double aden = 1; std::vector<std::pair<std::string, double>> nuclides; };
struct Axis {
  enum Kind { none, linspace, logspace, boundaries } kind = none;
  double min = 0, max = 1; int bins = 1; std::optional<double> base;
  std::vector<double> bounds;
  // boundaries in force, exact up to rounding
  std::vector<Ld> edges() const {
    std::vector<Ld> e;
    if (kind == boundaries) for (double b : bounds) e.push_back(b);
    if (kind == linspace) for (int i = 0; i <= bins; i++) e.push_back((Ld)min + ((Ld)max - min) * i / bins);
    if (kind == logspace) for (int i = 0; i <= bins; i++) e.push_back(std::pow((Ld)base.value_or(10), (Ld)min + ((Ld)max - min) * i / bins));
    return e;
  }
  size_t size() const { return kind == none ? 1 : kind == boundaries ? bounds.size() + 1 : bins + 2; }
  size_t index(Ld v) const { size_t i = 0; for (Ld e : edges()) if (v >= e) i++; return i; }
  // distance-like measure: is v within rounding of an edge?
  bool near_edge(Ld v, Ld rel = 1e-9L) const {
    if (kind == boundaries) { return false; }
    for (Ld e : edges()) if (std::fabs(v - e) <= rel * (std::fabs(e) + (Ld)std::fabs(max - min) + (kind == linspace ? (Ld)std::fabs(min) : 0))) return true;
    return false;
  }
  std::string xml() const {
    switch (kind) {
    case none: return "";
    case linspace: return "<linspace min=\"" + num(min) + "\" max=\"" + num(max) + "\" bins=\"" + std::to_string(bins) + "\"/>";
    case logspace: return "<logspace min=\"" + num(min) + "\" max=\"" + num(max) + "\" bins=\"" + std::to_string(bins) + "\"" + (base ? " base=\"" + num(*base) + "\"" : "") + "/>";
    default: { std::string s = "<boundaries>"; for (size_t i = 0; i < bounds.size(); i++) s += (i ? " " : "") + num(bounds[i]); return s + "</boundaries>"; }
    }
  }
};
struct Tally {
  std::string name, surface;
  Axis energy, cosine;
  V3 ref{1, 0, 0};
  std::vector<std::string> sens;
  size_t size() const { return energy.size() * cosine.size(); }
  std::string bins_xml() const {
    std::string s;
    if (energy.kind || cosine.kind) {
      s += "<bins>";
      if (energy.kind) s += "<energy>" + energy.xml() + "</energy>";
      if (cosine.kind) s += "<cosine u=\"" + num(ref.x) + "\" v=\"" + num(ref.y) + "\" w=\"" + num(ref.z) + "\">" + cosine.xml() + "</cosine>";
      s += "</bins>";
    }
    return s;
  }
  std::string xml() const {
    std::string s = "  <current name=\"" + name + "\" surface=\"" + surface + "\">" + bins_xml();
    if (!sens.empty()) { s += "<sensitivities>"; for (auto& n : sens) s += "<perturbation name=\"" + n + "\"/>"; s += "</sensitivities>"; }
    return s + "</current>\n";
  }
};
struct Perturb { std::string name, nuclide; };
struct Input {
  std::string particles = "neutron";
  long long histories = 100; long threads = 1; long chunksize = 100;
  std::optional<long long> seed; std::optional<std::string> tracking;
  int groups = 1;
  std::vector<MgNuclide> nuclides;
  std::string nuclides_xml; // used instead when not empty (continuous data)
  std::vector<Mat> materials;
  std::vector<Surf> surfaces;
  std::vector<Region> regions;
  std::string temperature_xml;
  V3 pos; std::string direction_xml = "<isotropic/>"; std::string energy = "1", type = "neutron";
  std::vector<Tally> tallies; std::vector<Perturb> perturbations;
  std::string schema; // path, empty: none

  static std::string list(const std::vector<double>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + num(v[i]); return s; }
  static std::string mg_xml(const char* tag, const Mg& m) {
    std::string s = std::string{"<"} + tag + ">";
    if (!m.capture.empty()) s += "<capture>" + list(m.capture) + "</capture>";
    if (!m.scatter.empty()) s += "<scatter>" + list(m.scatter) + "</scatter>";
    if (!m.fis_xs.empty()) s += "<fission><nubar>" + list(m.nubar) + "</nubar><chi>" + list(m.chi) + "</chi><xs>" + list(m.fis_xs) + "</xs></fission>";
    return s + "</" + tag + ">";
  }
  std::string nuc_xml() const {
    if (!nuclides_xml.empty()) return nuclides_xml;
    std::string s = "<nuclides><multigroup groups=\"" + std::to_string(groups) + "\">\n";
    for (auto& n : nuclides) {
      s += "  <nuclide name=\"" + n.name + "\">";
      if (n.neutron) s += mg_xml("neutron", *n.neutron);
      if (n.photon) s += mg_xml("photon", *n.photon);
      s += "</nuclide>\n";
    }
    return s + "</multigroup></nuclides>\n";
  }
  std::string xml() const {
    std::string s = "<minimc";
    if (!schema.empty()) s += " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"" + schema + "\"";
    s += ">\n<general><particles>" + particles + "</particles><histories>" + std::to_string(histories) + "</histories><threads>" + std::to_string(threads) + "</threads><chunksize>" + std::to_string(chunksize) + "</chunksize>";
    if (seed) s += "<seed>" + std::to_string(*seed) + "</seed>";
    if (tracking) s += "<tracking>" + *tracking + "</tracking>";
    s += "</general>\n" + nuc_xml() + "<materials>\n";
    for (auto& m : materials) {
      s += "  <material name=\"" + m.name + "\" aden=\"" + num(m.aden) + "\">";
      for (auto& [n, f] : m.nuclides) s += "<nuclide name=\"" + n + "\" afrac=\"" + num(f) + "\"/>";
      s += "</material>\n";
    }
    s += "</materials>\n<surfaces>\n";
    for (auto& f : surfaces) s += f.xml();
    s += "</surfaces>\n<cells>\n";
    for (auto& r : regions) {
      s += r.is_void ? "  <void>" : "  <cell name=\"" + r.name + "\" material=\"" + r.material + "\"" + (r.temperature ? " temperature=\"" + num(*r.temperature) + "\"" : "") + ">";
      for (auto& [i, sd] : r.sides) s += "<surface name=\"" + surfaces[i].name + "\" sense=\"" + (sd < 0 ? "-1" : "+1") + "\"/>";
      s += r.is_void ? "</void>\n" : "</cell>\n";
    }
    s += "</cells>\n";
    if (!temperature_xml.empty()) s += "<temperature>" + temperature_xml + "</temperature>\n";
    s += "<problemtype><fixedsource><position><constant x=\"" + num(pos.x) + "\" y=\"" + num(pos.y) + "\" z=\"" + num(pos.z) + "\"/></position><direction>" + direction_xml + "</direction><energy><constant energy=\"" + energy + "\"/></energy><particletype><constant type=\"" + type + "\"/></particletype></fixedsource></problemtype>\n";
    if (!tallies.empty()) { s += "<estimators>\n"; for (auto& t : tallies) s += t.xml(); s += "</estimators>\n"; }
    if (!perturbations.empty()) { s += "<perturbations>\n"; for (auto& p : perturbations) s += "  <total name=\"" + p.name + "\" nuclide=\"" + p.nuclide + "\"/>\n"; s += "</perturbations>\n"; }
    return s + "</minimc>\n";
  }
  // first region in order containing p, -1 when none; *margin is false if the
  // answer could depend on rounding
  int locate(V3 p, bool* clear = nullptr) const {
    if (clear) for (auto& f : surfaces) if (std::fabs(f.value(p)) <= f.band(p)) *clear = false;
    for (size_t i = 0; i < regions.size(); i++) {
      bool in = true;
      for (auto& [s, sd] : regions[i].sides) if (surfaces[s].inside(p) != (sd < 0)) in = false;
      if (in) return (int)i;
    }
    return -1;
  }
};
inline std::string dir_xml(V3 d, const char* tag = "constant") {
  return std::string{"<"} + tag + " x=\"" + num(d.x) + "\" y=\"" + num(d.y) + "\" z=\"" + num(d.z) + "\"/>";
}
struct Doc {
  pugi::xml_document doc;
  pugi::xml_node root;
  explicit Doc(const std::string& xml) {
    if (!doc.load_string(xml.c_str())) throw std::runtime_error("harness: bad XML");
    root = doc.child("minimc");
  }
};
// simple macroscopic helper: one-group purely absorbing nuclide
inline MgNuclide absorber(const std::string& name, double sigma, int groups = 1) {
  MgNuclide n{name, Mg{}, std::nullopt};
  n.neutron->capture.assign(groups, sigma);
  return n;
}
} // namespace model
