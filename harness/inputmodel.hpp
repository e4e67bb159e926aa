// What the published schema and the references in an input allow, decided
// independently of the validator the code uses.
#pragma once
#include "cegen.hpp"
#include <algorithm>
#include <filesystem>
#include <regex>
namespace model {
enum Verdict { good = 0, unclear = 1, bad = 2 };
struct InputModel {
  using N = pugi::xml_node;
  Verdict v = good; std::string why;
  bool skip = false; // deliberately outside the statement
  std::string schema;
  void set(Verdict x, const std::string& w) { if (x > v) { v = x; why = w; } }
  // --- lexical -------------------------------------------------------------
  static std::string collapse(const std::string& s) { std::string o; bool sp = false; for (char ch : s) { if (strchr(" \t\r\n", ch)) sp = true; else { if (sp && !o.empty()) o += ' '; sp = false; o += ch; } } return o; }
  static std::vector<std::string> tokens(const std::string& s) { std::vector<std::string> v; std::stringstream i(collapse(s)); std::string t; while (std::getline(i, t, ' ')) if (!t.empty()) v.push_back(t); return v; }
  static bool ascii(const std::string& s) { for (unsigned char ch : s) if (ch >= 127 || (ch < 32 && !strchr("\t\r\n", ch))) return false; return true; }
  // a number, and whether its meaning is beyond doubt
  Verdict dbl(const std::string& s, double& x) {
    static const std::regex re("[+-]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)([eE][+-]?[0-9]+)?");
    std::string t = collapse(s);
    if (t.size() > 300) return unclear;
    if (t == "INF" || t == "-INF" || t == "NaN" || t == "+INF") return unclear;
    if (!std::regex_match(t, re)) return bad;
    x = strtod(t.c_str(), nullptr);
    if (!std::isfinite(x)) return unclear;
    if (x == 0) { for (char ch : t) { if (ch == 'e' || ch == 'E') break; if (ch >= '1' && ch <= '9') return unclear; } }
    else if (std::fabs(x) < 1e-300) return unclear;
    return good;
  }
  void typed(const std::string& type, const std::string& s, const std::string& at) {
    if (!ascii(s)) { set(unclear, at + ": characters"); if (type != "str" && type != "uri") set(bad, at + ": characters in " + type); return; }
    double x = 0;
    if (type == "dbl" || type == "nonneg" || type == "pos") {
      auto d = dbl(s, x); set(d, at + ": \"" + s + "\" as a number");
      if (d == good && type == "nonneg" && x < 0) set(bad, at + ": negative");
      if (d == good && type == "pos" && !(x > 0)) set(bad, at + ": not positive");
    }
    else if (type == "posint") {
      static const std::regex re("\\+?0*[1-9][0-9]*");
      auto t = collapse(s);
      if (!std::regex_match(t, re)) set(bad, at + ": \"" + s + "\" as a positive integer");
      else if (t.size() > 18) set(unclear, at + ": huge");
    }
    else if (type == "ptype") { if (s != "neutron" && s != "photon") set(bad, at + ": particle type \"" + s + "\""); }
    else if (type == "ptypes") { for (auto& t : tokens(s)) if (t != "neutron" && t != "photon") set(bad, at + ": particle type \"" + t + "\""); if (tokens(s).empty()) set(unclear, at + ": no particle"); }
    else if (type == "groups") { for (auto& t : tokens(s)) { auto d = dbl(t, x); set(d, at + ": \"" + t + "\" in a list"); if (d == good && x < 0) set(bad, at + ": negative"); } }
    else if (type == "dbls") { auto k = tokens(s); if (k.empty()) set(bad, at + ": empty list"); for (auto& t : k) set(dbl(t, x), at + ": \"" + t + "\" in a list"); }
    else if (type == "tracking") { if (s != "surface" && s != "cell delta") set(bad, at + ": tracking \"" + s + "\""); }
    else if (type == "sense") { if (s != "+1" && s != "-1") set(bad, at + ": sense \"" + s + "\""); }
    else if (type == "uri") { if (s.find_first_of(" %<>\"{}|\\^`#:?[]") != std::string::npos) set(unclear, at + ": odd path"); }
  }
  // --- structure -----------------------------------------------------------
  struct Att { const char* name; const char* type; bool req; };
  struct Spec;
  struct Kid { const char* name; const Spec* spec; bool req; };
  enum Kind { all, many, one, text, empty, any };
  struct Spec { Kind kind; std::vector<Kid> kids; std::vector<Att> atts; const char* type = ""; };
  void element(N n, const Spec& s, bool root = false) {
    std::string at = n.path();
    std::set<std::string> seen;
    for (auto a : n.attributes()) {
      std::string k = a.name();
      if (!seen.insert(k).second) { set(bad, at + ": attribute twice"); continue; }
      if (root && (k == "xmlns:xsi" || k == "xsi:noNamespaceSchemaLocation")) continue;
      if (k.find(':') != std::string::npos || k.substr(0, 5) == "xmlns") { set(unclear, at + ": namespace attribute"); continue; }
      const Att* f = nullptr;
      for (auto& t : s.atts) if (k == t.name) f = &t;
      if (f) typed(f->type, a.value(), at + "@" + k);
      else if (s.kind == any) set(unclear, at + ": content of any type");
      else set(bad, at + ": attribute " + k);
    }
    for (auto& t : s.atts) if (t.req && !seen.count(t.name)) set(bad, at + ": no attribute " + t.name);
    bool ink = false; int kids = 0; std::string txt; int pieces = 0;
    std::map<std::string, int> count;
    for (auto k : n.children()) switch (k.type()) {
      case pugi::node_element: kids++; count[k.name()]++; break;
      case pugi::node_pcdata: txt += k.value(); pieces++; if (!collapse(k.value()).empty()) ink = true; break;
      case pugi::node_cdata: txt += k.value(); pieces++; if (!collapse(k.value()).empty()) ink = true; break;
      default: break;
    }
    if (s.kind == any) { if (kids || pieces) set(unclear, at + ": content of any type"); return; }
    if (s.kind == text) {
      if (kids) { set(bad, at + ": elements in a value"); return; }
      typed(s.type, txt, at);
      return;
    }
    if (ink) set(bad, at + ": text");
    for (auto k : n.children(/*elements*/)) if (k.type() == pugi::node_cdata) set(unclear, at + ": CDATA between elements");
    if (s.kind == empty) { if (kids) set(bad, at + ": elements"); else if (pieces) set(unclear, at + ": white space in an empty element"); return; }
    for (auto& [k, c] : count) {
      const Kid* f = nullptr; for (auto& t : s.kids) if (k == t.name) f = &t;
      if (!f) { if (k.find(':') != std::string::npos) set(unclear, at + ": prefix"); set(bad, at + ": element " + k); continue; }
      if (s.kind == all && c > 1) set(bad, at + ": " + k + " twice");
      for (auto e : n.children(k.c_str())) element(e, *f->spec);
    }
    if (s.kind == all) for (auto& t : s.kids) if (t.req && !count[t.name]) set(bad, at + ": no " + t.name);
    if (s.kind == many && kids == 0) set(bad, at + ": nothing in it");
    if (s.kind == one && kids != 1) set(bad, at + ": " + std::to_string(kids) + " alternatives");
  }
  void unique(const std::vector<N>& list, const std::string& what) { std::set<std::string> s; for (auto n : list) if (n.attribute("name") && !s.insert(n.attribute("name").value()).second) set(bad, what + " \"" + n.attribute("name").value() + "\" twice"); }
  static std::vector<N> elems(N n) { std::vector<N> v; for (auto k : n.children()) if (k.type() == pugi::node_element) v.push_back(k); return v; }
  void structure(N root) {
    static const Spec point{empty, {}, {{"x", "dbl", 1}, {"y", "dbl", 1}, {"z", "dbl", 1}}}, posint{text, {}, {}, "posint"}, ptypes{text, {}, {}, "ptypes"}, tracking{text, {}, {}, "tracking"}, groups{text, {}, {}, "groups"}, anything{any, {}, {}};
    static const Spec general{all, {{"particles", &ptypes, 1}, {"histories", &posint, 1}, {"threads", &posint, 1}, {"chunksize", &posint, 1}, {"seed", &posint, 0}, {"tracking", &tracking, 0}}, {}};
    static const Spec gfis{all, {{"xs", &groups, 1}, {"nubar", &groups, 1}, {"chi", &groups, 1}}, {}}, gxs{all, {{"capture", &groups, 0}, {"scatter", &groups, 0}, {"fission", &gfis, 0}}, {}};
    static const Spec gnuc{all, {{"neutron", &gxs, 0}, {"photon", &gxs, 0}}, {{"name", "str", 1}}}, mg{many, {{"nuclide", &gnuc, 1}}, {{"groups", "posint", 1}}};
    static const Spec ev{empty, {}, {{"file", "uri", 1}, {"temperature", "pos", 1}}};
    static const Spec bpart{empty, {}, {{"CDF", "uri", 1}, {"S", "uri", 1}, {"E_T", "uri", 1}}}, apart{empty, {}, {{"CDF", "uri", 1}, {"S", "uri", 1}, {"beta_T", "uri", 1}}}, bps{many, {{"partition", &bpart, 1}}, {}}, aps{many, {{"partition", &apart, 1}}, {}};
    static const Spec tsl{all, {{"beta_partitions", &bps, 1}, {"alpha_partitions", &aps, 1}}, {{"majorant", "uri", 1}, {"total_E", "uri", 1}, {"total_T", "uri", 1}, {"total_S", "uri", 1}, {"beta_cutoff", "pos", 1}, {"alpha_cutoff", "pos", 1}}};
    static const Spec csca{all, {{"xs", &ev, 1}, {"tsl", &tsl, 0}}, {}}, cfis{all, {{"xs", &ev, 1}, {"nubar", &ev, 1}}, {}}, cxs{all, {{"total", &ev, 0}, {"capture", &ev, 0}, {"scatter", &csca, 0}, {"fission", &cfis, 0}}, {}};
    static const Spec cnuc{all, {{"neutron", &cxs, 0}, {"photon", &cxs, 0}}, {{"name", "str", 1}, {"awr", "pos", 1}}}, ce{many, {{"nuclide", &cnuc, 1}}, {}};
    static const Spec nuclides{one, {{"multigroup", &mg, 0}, {"continuous", &ce, 0}}, {}};
    static const Spec mnuc{empty, {}, {{"name", "str", 1}, {"afrac", "pos", 1}}}, material{many, {{"nuclide", &mnuc, 1}}, {{"name", "str", 1}, {"aden", "pos", 1}}}, materials{many, {{"material", &material, 1}}, {}};
    static const Spec radius{empty, {}, {{"r", "pos", 1}}}, sphere{all, {{"center", &point, 1}, {"radius", &radius, 1}}, {{"name", "str", 1}}}, planex{empty, {}, {{"name", "str", 1}, {"x", "dbl", 1}}}, cylx{empty, {}, {{"name", "str", 1}, {"r", "dbl", 1}}}, surfaces{many, {{"sphere", &sphere, 0}, {"planex", &planex, 0}, {"cylinderx", &cylx, 0}}, {}};
    static const Spec side{empty, {}, {{"name", "str", 1}, {"sense", "sense", 1}}}, cell{many, {{"surface", &side, 1}}, {{"name", "str", 1}, {"material", "str", 1}, {"temperature", "nonneg", 0}}}, vd{many, {{"surface", &side, 1}}, {}}, cells{many, {{"cell", &cell, 0}, {"void", &vd, 0}}, {}};
    static const Spec tc{empty, {}, {{"c", "dbl", 1}}}, bounds{empty, {}, {{"lower", "dbl", 1}, {"upper", "dbl", 1}}}, icept{empty, {}, {{"b", "dbl", 1}}}, lin{all, {{"bounds", &bounds, 1}, {"intercept", &icept, 1}, {"gradient", &point, 1}}, {}}, field{one, {{"constant", &tc, 0}, {"linear", &lin, 0}}, {}};
    static const Spec spos{one, {{"constant", &point, 0}}, {}}, sdir{one, {{"constant", &point, 0}, {"isotropic", &anything, 0}, {"isotropic-flux", &point, 0}}, {}}, en{empty, {}, {{"energy", "pos", 1}}}, sen{one, {{"constant", &en, 0}}, {}}, ty{empty, {}, {{"type", "ptype", 0}}}, sty{one, {{"constant", &ty, 0}}, {}};
    static const Spec source{all, {{"position", &spos, 1}, {"direction", &sdir, 1}, {"energy", &sen, 1}, {"particletype", &sty, 1}}, {}}, keig{all, {{"initialsource", &source, 1}}, {{"inactive", "posint", 1}, {"active", "posint", 1}}}, problem{one, {{"fixedsource", &source, 0}, {"keigenvalue", &keig, 0}}, {}};
    static const Spec linsp{empty, {}, {{"min", "dbl", 1}, {"max", "dbl", 1}, {"bins", "posint", 1}}}, logsp{empty, {}, {{"min", "dbl", 1}, {"max", "dbl", 1}, {"bins", "posint", 1}, {"base", "dbl", 0}}}, bnds{text, {}, {}, "dbls"}, ebins{one, {{"linspace", &linsp, 0}, {"logspace", &logsp, 0}, {"boundaries", &bnds, 0}}, {}}, cbins{one, {{"linspace", &linsp, 0}, {"logspace", &logsp, 0}, {"boundaries", &bnds, 0}}, {{"u", "dbl", 1}, {"v", "dbl", 1}, {"w", "dbl", 1}}}, bins{all, {{"energy", &ebins, 0}, {"cosine", &cbins, 0}}, {}};
    static const Spec sp{empty, {}, {{"name", "str", 0}}}, sens{many, {{"perturbation", &sp, 1}}, {}}, current{all, {{"bins", &bins, 0}, {"sensitivities", &sens, 0}}, {{"name", "str", 1}, {"surface", "str", 1}}}, ests{many, {{"current", &current, 1}}, {}};
    static const Spec pert{empty, {}, {{"name", "str", 1}, {"nuclide", "str", 1}}}, perts{many, {{"total", &pert, 1}}, {}};
    static const Spec top{all, {{"general", &general, 1}, {"nuclides", &nuclides, 1}, {"materials", &materials, 1}, {"surfaces", &surfaces, 1}, {"cells", &cells, 1}, {"temperature", &field, 0}, {"problemtype", &problem, 1}, {"estimators", &ests, 0}, {"perturbations", &perts, 0}}, {}};
    if (std::string{root.name()} != "minimc") { set(bad, "root element"); return; }
    if (root.attribute("xsi:noNamespaceSchemaLocation").value() != schema || std::string{root.attribute("xmlns:xsi").value()} != "http://www.w3.org/2001/XMLSchema-instance") set(unclear, "schema reference");
    element(root, top, true);
    unique(elems(root.child("materials")), "material");
    for (auto m : elems(root.child("materials"))) unique(elems(m), "nuclide of a material");
    unique(elems(root.child("surfaces")), "surface");
    { std::vector<N> v; for (auto c : root.child("cells").children("cell")) { v.push_back(c); std::vector<N> s; for (auto x : c.children("surface")) s.push_back(x); unique(s, "surface of a cell"); } unique(v, "cell"); }
    unique(elems(root.child("estimators")), "estimator");
    for (auto e : elems(root.child("estimators"))) unique(elems(e.child("sensitivities")), "sensitivity");
    unique(elems(root.child("perturbations")), "perturbation");
  }
  // --- references ----------------------------------------------------------
  static N named(N list, const std::string& name) { for (auto e : elems(list)) if (name == e.attribute("name").value()) return e; return {}; }
  static int levels(const std::string& path) {
    if (!std::filesystem::is_regular_file(path)) return -1;
    try { H5::H5File f(path, H5F_ACC_RDONLY); unsigned long long n = 0; f.openGroup("/pandas").openAttribute("axis1_nlevels").read(H5::PredType::NATIVE_ULLONG, &n); return (int)n; }
    catch (const H5::Exception&) { return -1; }
  }
  void file(N n, const char* att, int want) { auto p = n.attribute(att).value(); int l = levels(p); if (l != want) set(bad, n.path() + "@" + att + (l < 0 ? ": no such data file" : ": wrong number of axes")); }
  // the whole text of a value, comments left out
  static std::string value(N n) { std::string s; for (auto k : n.children()) if (k.type() == pugi::node_pcdata || k.type() == pugi::node_cdata) s += k.value(); return s; }
  static bool infinite(const std::string& s) { auto t = collapse(s); return t == "INF" || t == "-INF" || t == "+INF" || t == "NaN"; }
  void list(N n, size_t want) { auto k = tokens(value(n)); for (auto& t : k) if (infinite(t)) set(bad, n.path() + ": not a finite number"); if (k.size() != want) set(bad, n.path() + ": " + std::to_string(k.size()) + " values instead of " + std::to_string(want)); }
  void bins(N axis) {
    for (auto b : elems(axis)) {
      if (std::string{b.name()} == "boundaries") { double prev = -INFINITY; for (auto& t : tokens(value(b))) { double x = 0; if (infinite(t)) set(bad, b.path() + ": not a finite number"); if (dbl(t, x) != good) { set(unclear, b.path() + ": odd boundary"); break; } if (x <= prev) set(bad, b.path() + ": boundaries do not increase"); prev = x; } }
      else { double lo = b.attribute("min").as_double(), hi = b.attribute("max").as_double(); if (hi <= lo) set(bad, b.path() + ": empty range"); if (infinite(b.attribute("min").value()) || infinite(b.attribute("max").value())) set(bad, b.path() + ": not a finite number"); if (b.attribute("base") && (infinite(b.attribute("base").value()) || b.attribute("base").as_double() <= 1)) set(bad, b.path() + ": boundaries to that base do not increase"); if (b.attribute("bins").as_ullong() > 100000) set(unclear, "many bins"); }
    }
  }
  // where a source lies: in a material (good), in a void or nowhere (bad), or
  // too close to a surface to tell
  Verdict place(N root, N src) {
    N at = src.child("position").child("constant");
    double q[3]; const char* xyz[] = {"x", "y", "z"};
    for (int i = 0; i < 3; i++) if (dbl(at.attribute(xyz[i]).value(), q[i]) != good) return unclear;
    for (auto c : elems(root.child("cells"))) {
      bool inside = true, close = false; std::map<std::string, std::string> seen;
      for (auto s : elems(c)) {
        std::string n = s.attribute("name").value(), sense = s.attribute("sense").value();
        auto [it, fresh] = seen.emplace(n, sense);
        if (!fresh && it->second != sense) return unclear;
        N f = named(root.child("surfaces"), n);
        std::string k = f.name();
        auto num = [&](N e, const char* a) { double x = 0; if (dbl(e.attribute(a).value(), x) != good) x = NAN; return x; };
        long double v, scale;
        if (k == "planex") { double x = num(f, "x"); v = (long double)q[0] - x; scale = std::fabs(q[0]) + std::fabs(x); }
        else if (k == "cylinderx") { double r = num(f, "r"); v = sqrtl((long double)q[1] * q[1] + (long double)q[2] * q[2]) - r; scale = std::fabs(q[1]) + std::fabs(q[2]) + r; }
        else if (k == "sphere") {
          long double d2 = 0; double r = num(f.child("radius"), "r"); scale = r;
          for (int i = 0; i < 3; i++) { double m = num(f.child("center"), xyz[i]); d2 += ((long double)q[i] - m) * ((long double)q[i] - m); scale += std::fabs(q[i]) + std::fabs(m); }
          v = sqrtl(d2) - r;
        } else return unclear;
        if (!std::isfinite((double)v) || scale > 1e100) return unclear;
        if (fabsl(v) <= 1e-7L * scale) close = true;
        else if ((v > 0) != (sense == "+1")) inside = false;
      }
      if (!inside) continue;
      if (close) return unclear;
      return std::string{c.name()} == "void" ? bad : good;
    }
    return bad;
  }
  void references(N root) {
    N problem = elems(root.child("problemtype"))[0];
    if (std::string{problem.name()} == "keigenvalue") { set(unclear, "eigenvalue problem"); skip = true; }
    N group = elems(root.child("nuclides"))[0];
    bool mg = std::string{group.name()} == "multigroup";
    auto particles = tokens(value(root.child("general").child("particles")));
    std::set<std::string> surfaces, nuclides;
    for (auto c : elems(root.child("cells"))) {
      for (auto s : elems(c)) { std::string n = s.attribute("name").value(); surfaces.insert(n); if (!named(root.child("surfaces"), n)) set(bad, "a region uses surface \"" + n + "\""); }
      if (std::string{c.name()} == "void") continue;
      N m = named(root.child("materials"), c.attribute("material").value());
      if (!m) { set(bad, "a cell uses material \"" + std::string{c.attribute("material").value()} + "\""); continue; }
      for (auto k : elems(m)) nuclides.insert(k.attribute("name").value());
    }
    for (auto& n : nuclides) {
      N d = named(group, n);
      if (!d) { set(bad, "a material uses nuclide \"" + n + "\""); continue; }
      for (auto& p : particles) {
        N x = d.child(p.c_str());
        if (!x) { set(bad, "nuclide " + n + " has no data for the " + p); continue; }
        if (mg) {
          size_t G = group.attribute("groups").as_ullong();
          if (G > 1000) { set(bad, "lists for that many groups"); if (elems(x).empty()) set(unclear, "groups"); continue; }
          if (x.child("capture")) list(x.child("capture"), G);
          if (x.child("scatter")) list(x.child("scatter"), G * G);
          if (auto f = x.child("fission")) { list(f.child("xs"), G); list(f.child("nubar"), G); list(f.child("chi"), G * G); }
        } else {
          for (auto t : {x.child("total"), x.child("capture"), x.child("scatter").child("xs"), x.child("fission").child("xs"), x.child("fission").child("nubar")}) if (t) file(t, "file", 1);
          if (auto t = x.child("scatter").child("tsl")) {
            if (p == "photon") set(bad, "thermal scattering of photons");
            file(t, "majorant", 1); file(t, "total_E", 2); file(t, "total_T", 2); file(t, "total_S", 1);
            for (auto b : elems(t.child("beta_partitions"))) { file(b, "CDF", 2); file(b, "S", 1); file(b, "E_T", 3); }
            for (auto b : elems(t.child("alpha_partitions"))) { file(b, "CDF", 2); file(b, "S", 1); file(b, "beta_T", 3); }
          }
        }
      }
    }
    for (auto p : elems(root.child("perturbations"))) { std::string n = p.attribute("nuclide").value(); if (!named(group, n)) set(bad, "a perturbation of nuclide \"" + n + "\""); else if (!nuclides.count(n)) set(unclear, "a perturbation of an unused nuclide"); }
    for (auto e : elems(root.child("estimators"))) {
      std::string n = e.attribute("surface").value();
      if (!named(root.child("surfaces"), n)) set(bad, "a tally on surface \"" + n + "\""); else if (!surfaces.count(n)) set(unclear, "a tally on an unused surface");
      bins(e.child("bins").child("energy")); bins(e.child("bins").child("cosine"));
      for (auto s : elems(e.child("sensitivities"))) if (!named(root.child("perturbations"), s.attribute("name").value())) set(bad, "a sensitivity to \"" + std::string{s.attribute("name").value()} + "\"");
    }
    if (N lin = root.child("temperature").child("linear")) {
      N g = lin.child("gradient");
      bool flat = g.attribute("x").as_double() == 0 && g.attribute("y").as_double() == 0 && g.attribute("z").as_double() == 0;
      if (collapse(value(root.child("general").child("tracking"))) != "cell delta") set(flat ? unclear : bad, "surface tracking in a varying temperature");
    }
    N src = problem;
    if (std::string{problem.name()} == "fixedsource") set(place(root, src), "a source that does not lie in a region with a material");
    if (auto t = src.child("particletype").child("constant").attribute("type"); !t) set(bad, "a source without a particle type");
    else if (!std::count(particles.begin(), particles.end(), std::string{t.value()})) set(bad, "a source of particles that are not transported");
    if (mg) {
      auto e = src.child("energy").child("constant").attribute("energy"); double x = 0, G = group.attribute("groups").as_ullong();
      if (dbl(e.value(), x) != good) set(infinite(e.value()) ? bad : unclear, "the group of the source");
      else if (!(x >= 1 && x <= G && x == std::floor(x))) set(bad, "a source in no group");
    }
  }
  static constexpr unsigned flags = pugi::parse_default | pugi::parse_comments | pugi::parse_pi | pugi::parse_ws_pcdata | pugi::parse_doctype | pugi::parse_declaration;
  // of a document already parsed with these flags
  void judge(const pugi::xml_document& d) {
    int roots = 0;
    for (auto n : d.children()) { if (n.type() == pugi::node_element) roots++; if (n.type() == pugi::node_doctype) { v = unclear; why = "document type"; skip = true; return; } if (n.type() == pugi::node_pcdata && !collapse(n.value()).empty()) set(bad, "text outside"); }
    if (roots != 1) { set(bad, "not one root"); return; }
    N root; for (auto n : d.children()) if (n.type() == pugi::node_element) root = n;
    structure(root);
    if (v == bad) return;
    // tables of a thermal model in a different order mean nothing
    references(root);
  }
};
} // namespace model
