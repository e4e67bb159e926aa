#include "ceworld.hpp"
#include "inputmodel.hpp"
#include "Driver.hpp"
#include <cstdlib>
#include <fstream>
#include <sys/wait.h>
using namespace model;
using pbt::Case;
using pbt::cat;
using N = pugi::xml_node;
static std::string slurp(const std::string& p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& t) { std::ofstream o(p, std::ios::binary); o << t; }
static std::string text_of(const pugi::xml_document& d) { std::stringstream s; d.save(s, "", pugi::format_raw | pugi::format_no_declaration); return s.str(); }
// --- valid inputs --------------------------------------------------------
static bool gen_any(Case& c, Input& in, Files& f) {
  GeomOpt g;
  bool ok;
  if (!c.chance(1, 3)) { ProbOpt o; o.photons = c.chance(1, 3); o.sens = true; o.max_depth = 2; ok = gen_problem(c, in, o, &g); }
  else {
    double T = c.uniform(400, 600);
    auto ns = gen_ce_nuclides(c, c.chance(1, 2), true, T);
    for (auto& n : ns) if (n.neutron->tsl) gains(c, *n.neutron->tsl);
    in.nuclides_xml = ce_xml(ns, f);
    ok = gen_ce_problem(c, in, g, ns, kBoltzmann * T * c.logreal(0.1, 300), T);
    if (ok) {
      bool lin = c.chance(1, 2);
      gen_temperatures(c, in, T * 0.5, T * 1.5, lin, c.chance(1, 3));
      in.tracking = lin || c.chance(1, 2) ? "cell delta" : "surface";
      if (c.chance(1, 2)) { std::string n; for (auto& r : in.regions) if (!r.is_void) n = mat_of(in, (int)(&r - &in.regions[0]))->nuclides[0].first; in.perturbations.push_back({"p", n}); in.tallies[0].sens.push_back("p"); }
    }
  }
  if (!ok) return false;
  if (in.temperature_xml.empty() && c.chance(1, 4)) in.temperature_xml = "<constant c=\"300\"/>";
  in.schema = pbt::repo() + "/test/minimc.xsd";
  in.histories = c.range(1, 20); in.threads = 1;
  if (c.chance(1, 2)) in.seed = c.range(1, 1000);
  return true;
}
// --- edits of a document -------------------------------------------------
static void collect(N n, std::vector<N>& v) { for (auto k : n.children()) if (k.type() == pugi::node_element) { v.push_back(k); collect(k, v); } }
static std::vector<N> all_of(pugi::xml_document& d) { std::vector<N> v; collect(d, v); return v; }
static std::vector<N> named_as(pugi::xml_document& d, std::initializer_list<const char*> names) { std::vector<N> v; for (auto n : all_of(d)) for (auto k : names) if (!strcmp(n.name(), k)) v.push_back(n); return v; }
static std::vector<N> texts(pugi::xml_document& d) { std::vector<N> v; for (auto n : all_of(d)) if (n.first_child() && n.first_child().type() == pugi::node_pcdata && !InputModel::collapse(n.child_value()).empty()) v.push_back(n); return v; }
struct Ref { N n; const char* att; };
static std::vector<Ref> refs(pugi::xml_document& d) {
  std::vector<Ref> v;
  for (auto n : all_of(d)) {
    std::string k = n.name(), p = n.parent().name();
    if (k == "surface") v.push_back({n, "name"});
    if (k == "cell") v.push_back({n, "material"});
    if (k == "nuclide" && p == "material") v.push_back({n, "name"});
    if (k == "current") v.push_back({n, "surface"});
    if (k == "total" && p == "perturbations") v.push_back({n, "nuclide"});
    if (k == "perturbation") v.push_back({n, "name"});
  }
  return v;
}
static std::string odd_value(Case& c) {
  static const char* v[] = {"", " ", "abc", "1,5", "--1", "1e", "0x10", "1.5.2", "0", "-1", "-0.5", "1.5", "1e3", "+1", "+2", "1", "-1 ", " 2 ", "2", "100", ".5", "5.", "-.5e-3", "neutron", "photon", "Neutron", "electron", "neutron neutron", "surface", "cell delta", "Surface", "delta", "1 2", "1 2 3 4", "-1 1", "true", "\xc3\xa9", "1e-5", "0.0", "-0", "00", "007", "NaN", "INF", "1d3", "1f", "2147483648", "4000000000"};
  return v[c.below(sizeof v / sizeof *v)];
}
// the references of the input to names, changed a little
static std::string bent(Case& c, const std::string& s, pugi::xml_document& d) {
  switch (c.below(8)) {
  case 0: return s + "x";
  case 1: return s.substr(0, s.size() - 1);
  case 2: return "x" + s;
  case 3: { std::string t = s; for (auto& ch : t) ch = std::isupper(ch) ? std::tolower(ch) : std::toupper(ch); return t; }
  case 4: return s + " ";
  case 5: return "";
  default: { std::vector<std::string> k; for (auto n : all_of(d)) if (n.attribute("name")) k.push_back(n.attribute("name").value()); return k[c.below(k.size())]; }
  }
}
static bool edit(Case& c, pugi::xml_document& d, std::string& what, const std::string& dir) {
  auto pickn = [&](const std::vector<N>& v) { return v[c.below(v.size())]; };
  auto E = all_of(d);
  N root = d.child("minimc");
  if (!root || E.size() < 3) return false;
  auto attrs = [&](N n) { std::vector<pugi::xml_attribute> v; for (auto a : n.attributes()) v.push_back(a); return v; };
  switch (c.below(26)) {
  case 0: { N n = pickn(E); if (n == root) return false; what = cat("no ", n.path()); n.parent().remove_child(n); return true; }
  case 1: { N n = pickn(E); if (n == root) return false; what = cat(n.path(), " twice"); if (c.chance(1, 2)) n.parent().insert_copy_after(n, n); else n.parent().append_copy(n); return true; }
  case 2: { N n = pickn(E); std::string to = c.chance(1, 12) ? "\xc3\xa9t\xc3\xa9" : c.chance(1, 3) ? "unknown" : c.chance(1, 2) ? pickn(E).name() : std::string{n.name()} + "s"; what = cat(n.path(), " called ", to); n.set_name(to.c_str()); return true; }
  case 3: { N n = pickn(E); auto a = attrs(n); if (a.empty() || n == root) return false; auto x = a[c.below(a.size())]; what = cat("no ", x.name(), " of ", n.path()); n.remove_attribute(x); return true; }
  case 4: { N n = pickn(E); N m = pickn(E); auto a = attrs(m); std::string k = a.empty() || m == root || c.chance(1, 2) ? c.chance(1, 8) ? "\xc3\xa9" : "extra" : a[c.below(a.size())].name(); if (n.attribute(k.c_str())) return false; what = cat("attribute ", k, " of ", n.path()); n.append_attribute(k.c_str()) = odd_value(c).c_str(); return true; }
  case 5: case 6: { N n = pickn(E); auto a = attrs(n); if (a.empty() || n == root) return false; auto x = a[c.below(a.size())]; std::string to = odd_value(c); what = cat(n.path(), "@", x.name(), " set to \"", to, "\""); x = to.c_str(); return true; }
  case 7: { auto t = texts(d); if (t.empty()) return false; N n = pickn(t); std::string to = odd_value(c); what = cat(n.path(), " set to \"", to, "\""); n.text().set(to.c_str()); return true; }
  case 8: case 9: { // lists: one value more, less or different
    auto t = named_as(d, {"capture", "scatter", "chi", "nubar", "xs", "boundaries"}); std::vector<N> k; for (auto n : t) if (n.first_child() && n.first_child().type() == pugi::node_pcdata) k.push_back(n);
    if (k.empty()) return false;
    N n = pickn(k); auto v = InputModel::tokens(n.child_value()); if (v.empty()) return false;
    size_t i = c.below(v.size());
    switch (c.below(7)) {
    case 5: v.insert(c.chance(1, 2) ? v.end() : v.begin() + i, c.chance(1, 2) ? "INF" : "NaN"); what = "a value that is not finite in "; break;
    case 0: v.erase(v.begin() + i); what = "a value less in "; break;
    case 1: v.insert(v.begin() + i, "0.1"); what = "a value more in "; break;
    case 2: v[i] = odd_value(c); what = "an odd value in "; break;
    case 3: std::swap(v[i], v[c.below(v.size())]); what = "values swapped in "; break;
    case 4: v.insert(v.end(), v.begin(), v.end()); what = "values doubled in "; break;
    default: v[i] = v[c.below(v.size())]; what = "a value repeated in ";
    }
    std::string s; for (auto& x : v) s += (s.empty() ? "" : c.chance(1, 8) ? "\n\t" : " ") + x;
    what += n.path(); n.text().set(s.c_str()); return true; }
  case 10: case 11: { auto r = refs(d); if (r.empty()) return false; auto x = r[c.below(r.size())]; std::string to = bent(c, x.n.attribute(x.att).value(), d); what = cat(x.n.path(), "@", x.att, ": \"", x.n.attribute(x.att).value(), "\" becomes \"", to, "\""); x.n.attribute(x.att) = to.c_str(); return true; }
  case 12: { std::vector<N> v; for (auto n : E) if (n.attribute("name")) v.push_back(n); if (v.empty()) return false; N n = pickn(v); std::string to = bent(c, n.attribute("name").value(), d); what = cat(n.path(), "@name: ", n.attribute("name").value(), " becomes \"", to, "\""); n.attribute("name") = to.c_str(); return true; }
  case 13: { // data files
    std::vector<pugi::xml_attribute> v; std::vector<N> o; for (auto n : E) for (auto a : attrs(n)) if (strstr(a.value(), ".h5")) { v.push_back(a); o.push_back(n); }
    if (v.empty()) return false;
    size_t i = c.below(v.size()); auto a = v[i];
    bool tsl = strcmp(a.name(), "file") != 0;
    std::string old = a.value(), to;
    switch (c.below(6)) {
    case 0: to = old + "x"; break;
    case 1: to = dir + "/nowhere/" + "d0.h5"; break;
    case 2: to = dir + "/junk.h5"; spit(to, std::string(c.below(3000), 'x')); break;
    case 3: to = dir + "/four.h5"; Table{{{1, 2}, {1}, {1, 2}, {1}}, {1, 2, 3, 4}}.write(to); break;
    case 4: to = dir + "/cut.h5"; { auto s = slurp(old); spit(to, s.substr(0, c.below(96))); } break;
    default: to = dir + "/bare.h5"; { H5::H5File f(to, H5F_ACC_TRUNC); f.createGroup("/pandas"); }
    }
    (void)tsl;
    what = cat(o[i].path(), "@", a.name(), " names ", to); a = to.c_str(); return true; }
  case 14: { auto v = named_as(d, {"linspace", "logspace"}); if (v.empty()) return false; N n = pickn(v); auto lo = n.attribute("min"), hi = n.attribute("max"); if (!lo || !hi) return false;
    if (c.chance(1, 2)) { // boundaries that are no increasing finite numbers
      static const char* k[] = {"INF", "-INF", "NaN"}; static const char* q[] = {"1", "0", "-2", "0.5", "1.0", "-1e-3", "INF", "NaN"};
      if (std::string{n.name()} == "logspace" && c.chance(1, 2)) { if (!n.attribute("base")) n.append_attribute("base"); n.attribute("base") = q[c.below(8)]; what = cat("base ", n.attribute("base").value(), " in ", n.path()); }
      else { auto x = c.chance(1, 2) ? lo : hi; x = k[c.below(3)]; what = cat(x.name(), " ", x.value(), " in ", n.path()); }
      return true;
    }
    std::string a = lo.value(), b = hi.value(); if (c.chance(1, 2)) { lo = b.c_str(); hi = a.c_str(); what = "bounds swapped in "; } else { hi = a.c_str(); what = "equal bounds in "; } what += n.path(); return true; }
  case 15: { N n = pickn(E); what = cat("text in ", n.path()); n.append_child(pugi::node_pcdata).set_value(c.chance(1, 2) ? "x" : " 1 "); return true; }
  case 16: { N n = pickn(E), m = pickn(E); if (n == root) return false; for (N p = m; p; p = p.parent()) if (p == n) return false; what = cat(n.path(), " moved to ", m.path()); m.append_move(n); return true; }
  case 17: { N n = pickn(E); what = cat("new element in ", n.path()); if (c.chance(1, 2)) n.append_child("unknown"); else n.append_copy(pickn(E)); return true; }
  case 18: { N n = pickn(E); if (!n.first_child()) return false; what = cat(n.path(), " emptied"); while (n.first_child()) n.remove_child(n.first_child()); return true; }
  case 19: { auto t = texts(d); if (t.empty()) return false; N n = pickn(t); std::string v = n.child_value(); size_t at = c.below(v.size() + 1); what = cat("a comment in ", n.path()); while (n.first_child()) n.remove_child(n.first_child()); if (at) n.append_child(pugi::node_pcdata).set_value(v.substr(0, at).c_str()); n.append_child(pugi::node_comment).set_value(" 3 "); if (at < v.size()) n.append_child(c.chance(1, 4) ? pugi::node_cdata : pugi::node_pcdata).set_value(v.substr(at).c_str()); return true; }
  case 20: case 21: { // particle types and the data they need
    static const char* lists[] = {"neutron photon", "photon neutron", "photon", "neutron", "neutron neutron", "photon neutron photon", "\n neutron\tphoton "};
    auto P = root.child("general").child("particles"); if (!P) return false;
    std::string to = lists[c.below(sizeof lists / sizeof *lists)];
    what = cat("particles set to ", to); P.text().set(to.c_str());
    // then perhaps complete the data with copies, and take one away again
    auto data = named_as(d, {"neutron", "photon"});
    if (c.chance(3, 4)) for (auto n : data) { const char* o = !strcmp(n.name(), "neutron") ? "photon" : "neutron"; if (!n.parent().child(o)) { N k = n.parent().append_copy(n); k.set_name(o); if (!strcmp(o, "photon")) k.child("scatter").remove_child("tsl"); } }
    data = named_as(d, {"neutron", "photon"});
    if (c.chance(1, 2) && !data.empty()) { N n = pickn(data); what += cat(", no ", n.path(), " of ", n.parent().attribute("name").value()); n.parent().remove_child(n); }
    return true; }
  case 22: { // the source: groups that exist or not, spelled in one way or another, and types that are transported or not
    N src = root.child("problemtype").child("fixedsource");
    auto e = src.child("energy").child("constant").attribute("energy"), t = src.child("particletype").child("constant").attribute("type");
    unsigned G = root.child("nuclides").child("multigroup").attribute("groups").as_uint();
    if (!e || !t) return false;
    if (!G || c.chance(1, 3)) { std::string to = !strcmp(t.value(), "neutron") ? "photon" : "neutron"; t = to.c_str(); what = "source of " + to; return true; }
    std::string to;
    switch (c.below(7)) {
    case 0: to = cat(G + 1 + c.below(3)); break;
    case 1: to = cat(1 + c.below(G), ".5"); break;
    case 2: to = cat(1 + c.below(G), "e", c.below(3)); break;
    case 3: to = cat(1 + c.below(G), ".0"); break;
    case 4: to = cat("0.", 1 + c.below(9)); break;
    case 5: to = cat(G, "0e-1"); break;
    default: to = c.chance(1, 2) ? "INF" : "4294967297";
    }
    e = to.c_str(); what = "source group " + to; return true; }
  case 23: { // a source somewhere else
    N p = root.child("problemtype").child("fixedsource").child("position").child("constant");
    if (!p) return false;
    double s = c.logreal(0.01, c.chance(1, 2) ? 1e3 : 10);
    for (const char* k : {"x", "y", "z"}) if (c.chance(2, 3)) p.attribute(k) = num(c.chance(1, 4) ? 0 : p.attribute(k).as_double() * c.below(2) + c.real(-1, 1) * s).c_str();
    what = cat("source at ", p.attribute("x").value(), " ", p.attribute("y").value(), " ", p.attribute("z").value());
    return true; }
  default: { auto a = root.child("nuclides").child("multigroup").attribute("groups"); if (!a) return false; int to = std::max(1, (int)a.as_int() + (c.chance(1, 2) ? 1 : -1)); what = cat("groups set to ", to); a = to; return true; }
  }
}
// thermal scattering tables in another order: contents, not form
static std::string tables(pugi::xml_document& d) { std::string s; for (auto n : named_as(d, {"partition", "tsl"})) for (auto a : n.attributes()) if (InputModel::levels(a.value()) >= 0) s += cat(n.parent().name(), "@", a.name(), "=", a.value(), ";"); return s; }
// --- running -------------------------------------------------------------
struct Outcome2 { bool accepted = false; std::string message, trouble; };
static Outcome2 create(const std::string& path) {
  static const std::string out = pbt::scratch() + "/outcome";
  spit(out, "");
  Outcome2 o;
  o.trouble = pbt::in_child([&] {
    std::string r;
    try { auto d = Driver::Create(path); r = d ? "A" : "N"; }
    catch (const std::exception& e) { r = std::string{"R"} + e.what(); }
    catch (const H5::Exception& e) { r = "R" + e.getDetailMsg(); }
    spit(out, r);
    _exit(0);
  }, 20);
  std::string r = slurp(out);
  if (!r.empty() && o.trouble.empty()) { o.accepted = r[0] == 'A'; if (r[0] == 'R') o.message = r.substr(1); if (r[0] == 'N') o.trouble = "no driver was returned"; }
  else if (o.trouble.empty()) o.trouble = "ended without an answer";
  return o;
}
static void compare(Case& c, const InputModel& m, const Outcome2& o, const std::string& what) {
  c.check(o.trouble.empty(), cat("reading the input crashes: ", o.trouble, "\n", what, m.v == good ? "\nthe input is valid" : "\n" + m.why));
  if (m.v == bad) {
    c.check(!o.accepted, cat("an invalid input is accepted: ", m.why, "\n", what));
    c.check(InputModel::collapse(o.message).size() > 3, cat("an invalid input is refused without a message: ", m.why, "\n", what));
  }
  if (m.v == good) c.check(o.accepted, cat("a valid input is refused: ", o.message, "\n", what));
}
static void edits(Case& c) {
  Input in; Files f;
  if (!gen_any(c, in, f)) c.discard();
  pugi::xml_document d; c.check(d.load_string(in.xml().c_str(), InputModel::flags), "harness: input");
  std::string before = tables(d), what;
  int n = c.chance(3, 4) ? 1 : c.range(2, 4), done = 0;
  for (int i = 0; i < n; i++) { std::string w; if (edit(c, d, w, f.dir)) { what += w + "\n"; done++; } }
  if (!done) c.discard();
  if (tables(d) != before) { // only removed or bad files are of interest
    std::string after = tables(d); size_t at = 0; std::stringstream a(after), b(before); std::string x, y; std::vector<std::string> B; while (std::getline(b, y, ';')) B.push_back(y);
    while (std::getline(a, x, ';')) { while (at < B.size() && B[at] != x) at++; if (at++ >= B.size()) c.discard(); }
  }
  std::string path = f.dir + "/in.xml", t = text_of(d);
  spit(path, t);
  pugi::xml_document r; c.check(r.load_string(t.c_str(), InputModel::flags), "harness: edited input");
  InputModel m; m.schema = in.schema; m.judge(r);
  if (m.skip) c.discard();
  c.note(what, m.v == good ? "valid" : m.v == bad ? "invalid: " : "undecided: ", m.why, "\n", t);
  compare(c, m, create(path), what);
  c.label(m.v == good ? "still valid" : m.v == bad ? "invalid" : "undecided");
  c.nontrivial(m.v != unclear);
}
// forms of the same input
static void shuffle(Case& c, N n) {
  std::vector<N> k; for (auto x : n.children()) if (x.type() == pugi::node_element) k.push_back(x);
  static const std::set<std::string> any_order = {"minimc", "general", "neutron", "photon", "fission", "scatter", "tsl", "sphere", "linear", "fixedsource", "bins", "current", "materials", "surfaces", "multigroup", "continuous", "cells", "material", "cell", "void"};
  if (any_order.count(n.name()) && k.size() > 1) for (int i = 0; i < 3; i++) { size_t a = c.below(k.size()), b = c.below(k.size()); if (a == b) continue; if (std::string{n.name()} == "cells") continue; N x = k[a]; n.append_move(x); }
  for (auto x : k) {
    std::vector<pugi::xml_attribute> a; for (auto y : x.attributes()) a.push_back(y);
    if (a.size() > 1 && c.chance(1, 3)) { auto y = a[c.below(a.size())]; x.append_copy(y); x.remove_attribute(y); }
    shuffle(c, x);
  }
}
static std::string respell(Case& c, const std::string& t) {
  // white space, quotes, comments and references that change nothing
  std::string o = c.chance(1, 2) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "";
  if (c.chance(1, 4)) o += "<!-- a comment -->\n";
  bool tracking = false; // its white space counts
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '<') {
      size_t e = t.find('>', i); std::string tag = t.substr(i, e - i + 1);
      tracking = tag == "<tracking>";
      bool simple = false; for (auto k : {"<particles>", "<histories>", "<threads>", "<chunksize>", "<seed>", "<tracking>"}) if (tag == k) simple = true;
      std::string s;
      for (size_t q = 0; q < tag.size(); q++) {
        if (tag[q] == ' ' && c.chance(1, 12)) s += "\n  ";
        else if (tag[q] == '"') {
          size_t z = tag.find('"', q + 1); std::string v = tag.substr(q + 1, z - q - 1);
          if (tag.compare(0, 7, "<minimc") && c.chance(1, 10)) { std::string w; for (char ch : v) w += c.chance(1, 4) ? cat("&#", (int)ch, ";") : std::string(1, ch); v = w; }
          char qu = c.chance(1, 6) ? '\'' : '"';
          s += qu + v + qu; q = z;
        } else s += tag[q];
      }
      if (s.size() > 2 && s[s.size() - 2] == '/' && c.chance(1, 8)) { size_t z = 1; while (z < s.size() && !strchr(" \n/>", s[z])) z++; s = s.substr(0, s.size() - 2) + "></" + s.substr(1, z - 1) + ">"; }
      o += s; i = e + 1;
      bool next_open = i < t.size() && t[i] == '<';
      bool empty_el = next_open && t.compare(i, 2, "</") == 0 && tag[1] != '/' && tag[tag.size() - 2] != '/';
      if (next_open && !empty_el && !simple && c.chance(1, 12)) o += c.chance(1, 2) ? "\n\n " : c.chance(1, 2) ? "<!-- <x> -->" : "<?pi some?>";
      if (simple && !next_open && tag != "<tracking>" && c.chance(1, 6)) o += "\n ";
    } else {
      if (c.chance(1, 60)) o += c.chance(1, 3) ? "<!-- - -->" : c.chance(1, 2) ? "<!-- 1 <x> --><?pi 2?>" : "<![CDATA[]]>";
      if (c.chance(1, 60) && t[i] != ' ') { o += cat("<![CDATA[", t[i], "]]>"); i++; }
      else if (std::isdigit(t[i]) && c.chance(1, 40)) { o += cat("&#x", std::hex, (int)t[i], ";"); i++; }
      else if (t[i] == ' ' && c.chance(1, 20) && !tracking) { o += " \n\t "; i++; }
      else o += t[i++];
    }
  }
  if (c.chance(1, 4)) o += "\n<!-- end -->\n";
  return o;
}
static void forms(Case& c) {
  Input in; Files f;
  if (!gen_any(c, in, f)) c.discard();
  pugi::xml_document d; c.check(d.load_string(in.xml().c_str()), "harness: input");
  std::string canonical = in.xml();
  bool order = c.chance(2, 3);
  if (order) {
    // nuclides, materials, surfaces, sides: their order does not matter;
    // tallies, sensitivities, cells and partitions keep theirs
    shuffle(c, d.child("minimc"));
  }
  std::string t = text_of(d);
  bool spelled = c.chance(2, 3);
  if (spelled) t = respell(c, t);
  std::string path = f.dir + "/in.xml", base = f.dir + "/base.xml";
  spit(path, t); spit(base, canonical);
  c.note(t);
  std::string res = f.dir + "/res";
  auto run = [&](const std::string& p) {
    spit(res, "");
    std::string e = pbt::in_child([&] { auto q = Driver::Create(p); spit(res, q->Solve().to_string()); }, 30);
    c.check(e.empty(), cat("a valid input ", p == base ? "" : "in another form ", "is not run: ", e));
    return slurp(res);
  };
  std::string a = run(base), b = run(path);
  if (!order) c.check(a == b, "the same input in another form gives other results");
  else { // sums over nuclides and reactions may round differently
    auto x = parse_report(a), y = parse_report(b);
    c.check(x.size() == y.size(), "the same input in another form gives other tallies");
    for (size_t i = 0; i < x.size(); i++) { c.check(x[i].name == y[i].name && x[i].mean.size() == y[i].mean.size(), "the same input in another form gives other tallies"); }
  }
  if (order) c.label("order"); if (spelled) c.label("spelling");
  c.nontrivial(order || spelled);
}
// bytes changed, lost, repeated or inserted anywhere in the file
static void bytes(Case& c) {
  Input in; Files f;
  if (!gen_any(c, in, f)) c.discard();
  std::string t = in.xml();
  int n = c.range(1, 4); std::string what;
  static const char* bits[] = {"<", ">", "</", "/>", "\"", "'", "&", "&lt;", "&#0;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE a>", "\xff", "\xc3\x28", "=", " ", "\n", "-", "+1", "0", "9", "e", ".", "<a/>", "xmlns=\"x\"", " x=\"1\""};
  for (int i = 0; i < n && !t.empty(); i++) {
    size_t p = c.below(t.size()), k = 1 + c.below(c.chance(1, 3) ? 200 : 6);
    switch (c.below(7)) {
    case 0: t[p] = (char)c.below(256); what += cat("byte ", p, " changed\n"); break;
    case 1: t.erase(p, k); what += cat(k, " bytes lost at ", p, "\n"); break;
    case 2: t.insert(p, t.substr(p, k)); what += cat(k, " bytes repeated at ", p, "\n"); break;
    case 3: { auto b = bits[c.below(sizeof bits / sizeof *bits)]; t.insert(p, b); what += cat("\"", b, "\" inserted at ", p, "\n"); break; }
    case 4: t = t.substr(0, p); what += cat("cut at ", p, "\n"); break;
    case 5: { size_t q = c.below(t.size()); std::string m = t.substr(q, k); t.insert(p, m); what += cat(k, " bytes of ", q, " copied to ", p, "\n"); break; }
    default: t[p] ^= 1 << c.below(8); what += cat("bit flipped at ", p, "\n");
    }
  }
  std::string path = f.dir + "/in.xml"; spit(path, t);
  if (c.chance(1, 40)) { // no such input at all
    const char* where[] = {"/none.xml", "", "/none/in.xml", "/in.xml/x", "/empty.xml", "/odd \xc3\xa9.xml"};
    int k = c.below(6); std::string p = f.dir + where[k];
    if (k == 4) spit(p, "");
    c.note("input file ", p);
    InputModel m; m.set(bad, "there is no input");
    compare(c, m, create(p), p);
    c.label("no input"); c.nontrivial(); return;
  }
  pugi::xml_document r; auto ok = r.load_buffer(t.data(), t.size(), InputModel::flags);
  InputModel m; m.schema = in.schema;
  if (!ok) m.set(bad, cat("not well-formed: ", ok.description()));
  else m.judge(r);
  if (m.skip) c.discard();
  if (t.find("<!DOCTYPE") != std::string::npos || t.find("<!ENTITY") != std::string::npos) c.discard();
  if (m.v == good) m.v = unclear; // the parser used here is more lenient
  if (m.v == bad) if (ok) { for (auto k : {"&", "CDATA", "<?"}) if (t.find(k) != std::string::npos) m.v = unclear; size_t x = t.find("xmlns"); if (x == std::string::npos || t.find("xmlns", x + 1) != std::string::npos) m.v = unclear; }
  c.note(what, m.v == bad ? "invalid: " : "undecided: ", m.why, "\n", t);
  compare(c, m, create(path), what);
  c.label(m.v == bad ? ok ? "invalid" : "not well-formed" : "undecided");
  c.nontrivial(m.v == bad);
}
// the program itself, with sanitizers: no report, a message, no memory error
static void program(Case& c) {
  const char* dir = getenv("PBT_ASAN");
  c.check(dir, "harness: PBT_ASAN not set");
  Input in; Files f;
  if (!gen_any(c, in, f)) c.discard();
  pugi::xml_document d; c.check(d.load_string(in.xml().c_str(), InputModel::flags), "harness: input");
  std::string before = tables(d), what;
  if (!edit(c, d, what, f.dir)) c.discard();
  if (tables(d) != before && what.find(".h5") == std::string::npos) c.discard();
  std::string t = text_of(d);
  pugi::xml_document r; c.check(r.load_string(t.c_str(), InputModel::flags), "harness: edited input");
  InputModel m; m.schema = in.schema; m.judge(r);
  if (m.v != bad || m.skip) c.discard();
  std::string w = f.dir + "/run"; std::filesystem::remove_all(w); std::filesystem::create_directories(w);
  spit(w + "/in.xml", t);
  c.note(what, m.why, "\n", t);
  std::string cmd = cat("cd ", w, " && env ASAN_OPTIONS=detect_leaks=0:exitcode=77 UBSAN_OPTIONS=halt_on_error=1 timeout 60 ", dir, "/runminimc in.xml >log 2>&1");
  int st = system(cmd.c_str());
  std::string log = slurp(w + "/log");
  c.check(log.find("Sanitizer") == std::string::npos && log.find("runtime error:") == std::string::npos, cat(m.why, "\nthe program commits a memory error: ", log.substr(0, 2000)));
  c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), cat(m.why, "\nthe program reports success for an invalid input"));
  c.check(log.find("Assertion") == std::string::npos, cat(m.why, "\nthe program runs into an assertion: ", log.substr(0, 1000)));
  c.check(log.find("Spawning") == std::string::npos, cat(m.why, "\nhistories are run for an invalid input"));
  c.check(!std::filesystem::exists(w + "/in.out"), cat(m.why, "\na report is written for an invalid input"));
  c.check(InputModel::collapse(log).size() > 10, cat(m.why, "\nno message"));
  c.nontrivial(true);
}
// the message of a refusal tells where or what the defect is
static void place(Case& c) {
  Input in; Files f;
  if (!gen_any(c, in, f)) c.discard();
  pugi::xml_document d; c.check(d.load_string(in.xml().c_str()), "harness: input");
  std::vector<N> E; for (auto n : all_of(d)) if (n.type() == pugi::node_element && n != d.child("minimc")) E.push_back(n);
  int kind = c.below(4);
  std::string mark, what;
  if (kind == 3) { // a reference to something that does not exist: the message quotes the name
    auto r = refs(d); if (r.empty()) c.discard();
    auto x = r[c.below(r.size())];
    if (std::string{x.att} == "file") c.discard();
    mark = c.chance(1, 2) ? "no_such_thing" : cat(x.n.attribute(x.att).value(), "_x");
    x.n.attribute(x.att) = mark.c_str();
    what = cat(x.n.path(), "@", x.att, " names ", mark);
  } else {
    N n = E[c.below(E.size())];
    what = n.path();
    if (kind == 0) { mark = "<odd_element"; N k = c.chance(1, 2) ? n.parent().insert_child_after("odd_element", n) : n.parent().insert_child_before("odd_element", n); what = cat("unknown element ", k.path()); }
    else if (kind == 1) { mark = "odd_attribute"; n.append_attribute("odd_attribute") = "1"; what = cat("unknown attribute of ", n.path()); }
    else { mark = "odd_mark"; n.append_attribute("odd_mark") = "1"; what = cat("unknown entity in ", n.path()); }
  }
  std::stringstream ss; ss << std::string(c.chance(1, 3) ? c.below(c.chance(1, 3) ? 70000 : 300) : c.below(4), '\n'); // long files at times
  d.save(ss, c.chance(1, 2) ? " " : "\t", pugi::format_indent | pugi::format_no_declaration);
  std::string t = ss.str();
  if (kind == 2) t.replace(t.find("odd_mark=\"1\""), 12, "name=\"&odd_mark;\"");
  std::string path = f.dir + (c.chance(1, 2) ? "/in.xml" : "/input-2.1.xml"); spit(path, t);
  size_t line = 1 + std::count(t.begin(), t.begin() + t.find(mark), '\n');
  c.note(what, "\n", t);
  pugi::xml_document r;
  if (kind != 2) { // some elements may hold anything
    c.check(r.load_string(t.c_str(), InputModel::flags), "harness: edited input");
    InputModel m; m.schema = in.schema; m.judge(r);
    if (m.v != bad || m.skip) c.discard();
  }
  Outcome2 o = create(path);
  c.check(o.trouble.empty(), cat("reading the input crashes: ", o.trouble, "\n", what));
  c.check(!o.accepted, cat("an invalid input is accepted: ", what));
  if (kind == 3) c.check(o.message.find(mark) != std::string::npos, cat(what, ", but the message does not name it: ", o.message));
  else {
    std::string file = path.substr(path.rfind('/') + 1);
    c.check(o.message.find(file) != std::string::npos, cat(what, ": the message does not name the file: ", o.message));
    std::set<std::string> numbers; std::string digits;
    std::string rest = o.message; for (size_t q; (q = rest.find(path)) != std::string::npos;) rest.erase(q, path.size());
    for (char ch : rest + " ") if (std::isdigit((unsigned char)ch)) digits += ch; else { if (!digits.empty()) numbers.insert(digits); digits.clear(); }
    c.check(numbers.count(std::to_string(line)), cat(what, " on line ", line, ": the message does not say so: ", o.message));
  }
  static const char* kinds[] = {"unknown element", "unknown attribute", "not well-formed", "dangling name"};
  c.label(kinds[kind]);
  c.nontrivial(true);
}
PBT_MAIN((pbt::Property{"C22",
  "place: one unknown element, unknown attribute, undefined entity or dangling name at a random place of an indented valid input: the message must give the file and the line, or the name. edits: complete valid inputs (multigroup and continuous, thermal scattering tables, binned tallies, perturbations, fields) with one to four edits of their document (elements removed, repeated, renamed, moved, added or emptied; attributes removed, added, given odd values; list values lost, added, repeated or swapped; names and references bent; data files missing, truncated, of another kind or with other axes; bounds swapped or equal; text inserted; group count changed; particle types listed with or without the data they need), judged by an independent model of the schema and of the references: what is invalid must be refused with a message, what is still valid accepted, nothing may crash. forms: reordered, respelled (white space, quotes, character references, comments, empty-element tags) valid inputs run like the original. bytes: changed, lost, repeated, copied, inserted bytes and cuts; not well-formed or invalid text must be refused. program: edited invalid inputs through the program with sanitizers: failure status, a message, no histories, no report. Non-trivial when the model decides the case.",
  {"Items no region uses are not constructed: defects in them are not judged.", "Numbers of special or extreme value (NaN, INF, overflowing) other than bin boundaries and group values, document type declarations and eigenvalue problems are not judged; reordered or replaced thermal scattering tables are not generated.", "The schema file of the repository is taken as published."},
  {{"edits", edits, 7000, 60000, true, 60}, {"forms", forms, 300, 4000, true, 60}, {"bytes", bytes, 1200, 15000, true, 60}, {"place", place, 1500, 20000, true, 60}, {"program", program, 300, 3000, true, 90}}}))
