// Worlds of continuous-energy material and an independent reference for what
// happens in them.
#pragma once
#include "problem.hpp"
#include "cegen.hpp"
#include "Cell.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "ScalarField.hpp"
#include "World.hpp"
namespace model {
// a temperature field and its text
struct Field {
  bool linear = false; double c = 293.6; V3 g; double b = 0, lo = 0, hi = 0;
  Ld at(V3 p) const { return linear ? (Ld)g.x * p.x + (Ld)g.y * p.y + (Ld)g.z * p.z + b : (Ld)c; }
  double lower() const { return linear ? lo : c; }
  double upper() const { return linear ? hi : c; }
  std::string xml() const { return !linear ? "<constant c=\"" + num(c) + "\"/>" : "<linear><bounds lower=\"" + num(lo) + "\" upper=\"" + num(hi) + "\"/><intercept b=\"" + num(b) + "\"/>" + dir_xml(g, "gradient") + "</linear>"; }
};
// a field that stays within [tmin, tmax] in the ball (o, r); its bounds hold there
inline Field gen_linear(pbt::Case& c, V3 o, double r, double tmin, double tmax, bool tight) {
  Field f; f.linear = true;
  double mid = (tmin + tmax) / 2, half = (tmax - tmin) / 2 * c.uniform(0.2, 1);
  V3 d = gen_dir(c);
  f.g = d * (half / r);
  f.b = mid - (f.g.dot(o));
  double slack = tight ? 1e-9 * tmax : c.uniform(0, 0.2) * mid;
  f.lo = std::max(0., mid - half - slack); f.hi = mid + half + slack;
  return f;
}
struct CeWorld {
  std::unique_ptr<Doc> doc; std::unique_ptr<World> w;
  explicit CeWorld(const Input& in) : doc{std::make_unique<Doc>(in.xml())}, w{std::make_unique<World>(doc->root)} {}
  Particle at(V3 x, V3 d, double E, bool neutron, uint64_t seed) const {
    Particle p{P(x), D(d), E, neutron ? Particle::Type::neutron : Particle::Type::photon, (RNG::result_type)seed};
    p.SetCell(w->FindCellContaining(P(x)));
    return p;
  }
};
// one region of radius R around the origin filled with the given nuclides
inline Input ce_ball(const std::vector<CeNuclide>& n, Files& f, const std::string& temperature_xml, double R = 10) {
  Input in;
  bool ph = false; for (auto& x : n) ph |= x.photon.has_value();
  in.particles = ph ? "neutron photon" : "neutron";
  in.nuclides_xml = ce_xml(n, f);
  Mat m; m.name = "m"; for (auto& x : n) m.nuclides.push_back({x.name, 1});
  in.materials = {m};
  Surf s; s.kind = Surf::sphere; s.name = "o"; s.r = R; in.surfaces = {s};
  in.regions = {{false, "c", "m", std::nullopt, {{0, -1}}}, {true, "", "", std::nullopt, {{0, +1}}}};
  in.temperature_xml = temperature_xml;
  return in;
}
// elastic scattering off a Maxwellian target, weighted by relative speed;
// speeds in units where E = v^2 for the neutron
struct Outcome { double E, mu; V3 d; };
inline double gauss(pbt::Rng& r) { return std::sqrt(-2 * std::log(r.open())) * std::cos(2 * M_PI * r.unit()); }
inline Outcome ref_free_gas(pbt::Rng& r, double awr, double E, double T, V3 d) {
  V3 v = d * std::sqrt(E);
  double sig = std::sqrt(kBoltzmann * T / (2 * awr)), vmax = std::sqrt(E) + 9 * sig;
  V3 t;
  for (int i = 0; i < 100000; i++) { t = V3{gauss(r), gauss(r), gauss(r)} * sig; if (r.unit() * vmax < (v - t).norm()) break; }
  V3 cm = (v + t * awr) * (1 / (1 + awr));
  V3 o = cm + smooth_dir(r) * (v - cm).norm();
  Outcome q; q.E = o.dot(o); q.d = o * (1 / o.norm()); q.mu = q.d.dot(d);
  return q;
}
// --- thermal scattering by its tables -------------------------------------
// piecewise linear distribution function through (x_i, F_i), from (x_lo, 0) to (x_hi, 1)
struct Cdf {
  std::vector<Ld> x, F;
  Ld operator()(Ld v) const {
    if (v <= x.front()) return 0;
    if (v >= x.back()) return 1;
    size_t i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
    return F[i - 1] + (F[i] - F[i - 1]) * (v - x[i - 1]) / (x[i] - x[i - 1]);
  }
  Ld inverse(Ld u) const {
    size_t i = 1; while (i + 1 < F.size() && F[i] <= u) i++;
    return x[i - 1] + (x[i] - x[i - 1]) * (u - F[i - 1]) / (F[i] - F[i - 1]);
  }
};
// table of energy transfers for incident energy number i of the whole grid
inline Cdf beta_cdf(const Tsl& t, size_t i, double T, double& E) {
  for (auto& p : t.bp) {
    if (i >= p.Es.size()) { i -= p.Es.size(); continue; }
    E = p.Es[i];
    Cdf c; c.x.push_back(-(Ld)E / ((Ld)kBoltzmann * T)); c.F.push_back(0);
    for (size_t k = 0; k < p.F.size(); k++) { c.x.push_back(held(p.Ts, p.row(k, i), T)); c.F.push_back(p.F[k]); }
    c.x.push_back(t.beta_cutoff); c.F.push_back(1);
    return c;
  }
  throw std::runtime_error("harness: beta table");
}
inline Cdf alpha_cdf(const Tsl& t, size_t i, double T) {
  for (auto& p : t.ap) {
    if (i >= p.betas.size()) { i -= p.betas.size(); continue; }
    Cdf c; c.x.push_back(0); c.F.push_back(0);
    for (size_t k = 0; k < p.F.size(); k++) { c.x.push_back(held(p.Ts, p.row(k, i), T)); c.F.push_back(p.F[k]); }
    c.x.push_back(t.alpha_cutoff); c.F.push_back(1);
    return c;
  }
  throw std::runtime_error("harness: alpha table");
}
struct TslRef {
  const Tsl& t; double awr, E, T; Ld kT;
  std::vector<double> Es, bs;
  std::vector<std::pair<Cdf, Ld>> mix; // tables and weights
  std::vector<Ld> q;                   // part below the kinematic minimum
  Ld bmin;
  TslRef(const Tsl& tt, double a, double e, double T_) : t{tt}, awr{a}, E{e}, T{T_}, kT{(Ld)kBoltzmann * T_} {
    for (auto& p : t.bp) Es.insert(Es.end(), p.Es.begin(), p.Es.end());
    for (auto& p : t.ap) bs.insert(bs.end(), p.betas.begin(), p.betas.end());
    bmin = -(Ld)E / kT;
    size_t i = 0; while (i < Es.size() && Es[i] <= E) i++;
    Ld r = i == 0 ? 1 : (E - (Ld)Es[i - 1]) / ((Ld)Es[i] - Es[i - 1]);
    double dummy;
    mix.push_back({beta_cdf(t, i, T, dummy), r});
    if (i > 0) mix.push_back({beta_cdf(t, i - 1, T, dummy), 1 - r});
    for (auto& m : mix) q.push_back(m.first(bmin));
  }
  Ld unreachable() const { Ld m = 0; for (auto x : q) m = std::max(m, x); return m; }
  Ld F(Ld b) const { Ld s = 0; for (size_t k = 0; k < mix.size(); k++) s += mix[k].second * std::max<Ld>(0, mix[k].first(b) - q[k]) / (1 - q[k]); return s; }
  void limits(Ld b, Ld& lo, Ld& hi) const {
    Ld s = std::sqrt((Ld)E), u = std::sqrt(std::max<Ld>(0, E + b * kT)), d = awr * kT;
    lo = (s - u) * (s - u) / d; hi = (s + u) * (s + u) / d;
  }
  // tables of momentum transfer for an energy transfer, and their weights
  struct Alpha { Cdf c; Ld w, l, h; };
  std::vector<Alpha> alphas(Ld b) const {
    Ld ab = std::fabs(b), sg = b > 0 ? 1 : -1;
    size_t i = 0; while (i < bs.size() && bs[i] <= ab) i++;
    std::vector<std::pair<size_t, Ld>> use;
    if (i == 0) use = {{0, 1}};
    else if (i == bs.size() || (sg > 0 && bs[i] >= t.beta_cutoff) || (sg < 0 && -(Ld)bs[i] < bmin)) use = {{i - 1, 1}};
    else { Ld r = (ab - bs[i - 1]) / ((Ld)bs[i] - bs[i - 1]); use = {{i, r}, {i - 1, 1 - r}}; }
    std::vector<Alpha> v;
    for (auto& [k, w] : use) {
      Ld B = sg * bs[k];
      if (B < bmin) B = b; // only b itself has kinematic limits
      Alpha a{alpha_cdf(t, k, T), w, 0, 0}; limits(B, a.l, a.h);
      v.push_back(a);
    }
    return v;
  }
  // distribution of the momentum transfer given the energy transfer
  Ld G(Ld a, Ld b) const {
    Ld s = 0, lo, hi;
    limits(b, lo, hi);
    for (auto& x : alphas(b)) {
      Ld y = x.l + (a - lo) * (x.h - x.l) / (hi - lo);
      s += x.w * (x.c(y) - x.c(x.l)) / (x.c(x.h) - x.c(x.l));
    }
    return s;
  }
  // one outcome: energy and cosine
  std::pair<double, double> sample(pbt::Rng& r) const {
    size_t k = mix.size() > 1 && r.unit() >= mix[0].second ? 1 : 0;
    Ld b = mix[k].first.inverse(q[k] + (1 - q[k]) * r.unit());
    b = std::max(b, bmin * (1 - 1e-12L));
    auto v = alphas(b);
    auto& x = v.size() > 1 && r.unit() >= v[0].w ? v[1] : v[0];
    Ld lo, hi, f = x.c(x.l), y = x.c.inverse(f + (x.c(x.h) - f) * r.unit());
    limits(b, lo, hi);
    Ld a = lo + (y - x.l) * (hi - lo) / (x.h - x.l), Ep = E + b * kT;
    return {(double)Ep, (double)std::max(-1.L, std::min(1.L, (E + Ep - a * awr * kT) / (2 * std::sqrt((Ld)E * Ep))))};
  }
};
// --- whole continuous-energy problems ------------------------------------
// ball around the regions that are not void
inline void ball(const Input& in, V3& o, double& r) {
  auto& s = in.surfaces;
  if (s[0].kind == Surf::sphere) { o = s[0].c; r = s[0].r; }
  else { o = V3{(s[0].r + s[1].r) / 2, 0, 0}; r = std::hypot((s[1].r - s[0].r) / 2, s[2].r); }
  r *= 1.01;
}
// a global field over the geometry and, at times, regions with their own
inline Field gen_temperatures(pbt::Case& c, Input& in, double tmin, double tmax, bool linear, bool own) {
  Field f;
  if (linear) {
    V3 o; double r; ball(in, o, r);
    f.linear = true;
    double mid = (tmin + tmax) / 2, half = (tmax - tmin) / 2 * (c.chance(3, 4) ? c.uniform(0.8, 1) : c.uniform(0.05, 1)), slack = c.chance(1, 2) ? 1e-9 * tmax : c.uniform(0, 0.2) * mid;
    f.g = gen_dir(c) * (half / r); f.b = mid - f.g.dot(o);
    f.lo = std::max(0., mid - half - slack); f.hi = mid + half + slack;
  }
  else f.c = c.uniform(tmin, tmax);
  in.temperature_xml = f.xml();
  if (own) for (auto& r : in.regions) if (!r.is_void && c.chance(1, 3)) r.temperature = c.uniform(tmin, tmax);
  return f;
}
inline Ld temp_at(const Input& in, const Field& f, int region, V3 x) { auto& r = in.regions[region]; return r.temperature ? (Ld)*r.temperature : f.at(x); }
inline const Mat* mat_of(const Input& in, int region) { for (auto& m : in.materials) if (m.name == in.regions[region].material) return &m; return nullptr; }
// macroscopic total at temperature T
inline Ld macro(const std::vector<CeNuclide>& ns, const Mat& m, double E, double T) {
  Ld s = 0, q = 0;
  for (auto& [n, f] : m.nuclides) for (auto& x : ns) if (x.name == n) { s += f * ce_total(x, true, E, T); q += f; break; }
  return m.aden * s / q;
}
inline void use_surfaces(Input& in) {
  for (auto& t : in.tallies) { bool used = false; for (auto& r : in.regions) for (auto& s : r.sides) used |= in.surfaces[s.first].name == t.surface; if (!used) t.surface = in.surfaces[in.regions[0].sides[0].first].name; }
}
// thermal scattering tables whose energy transfers are nearly all gains, so
// that no incident energy exhausts the resampling limit
inline void gains(pbt::Case& c, Tsl& t) {
  for (auto& p : t.bp) {
    p.F[0] = std::min(p.F[0], 0.01);
    for (size_t i = 0; i < p.lo.size(); i++) for (size_t j = 0; j < p.lo[i].size(); j++) {
      if (p.lo[i][j] < 0) p.lo[i][j] = c.uniform(0, 0.5);
      p.hi[i][j] = std::max(p.hi[i][j], p.lo[i][j] + 0.1);
    }
  }
}
// nuclides whose chains of fissions die out
inline std::vector<CeNuclide> gen_ce_nuclides(pbt::Case& c, bool tsl, bool fission, double tmid) {
  std::vector<CeNuclide> ns; int nn = c.range(1, c.chance(1, 20) ? 10 : 3);
  bool odd = c.chance(1, 2), more = c.chance(1, 2); Names name(c);
  for (int i = 0; i < nn; i++) {
    CeNuclide n; n.name = odd ? name(i) : std::string(1, (char)('a' + (i * 7 + 2) % 26));
    n.awr = c.chance(1, 3) ? c.uniform(0.7, 1) : c.logreal(1, 100);
    CeOpt o; o.lo = kBoltzmann * tmid * 1e-3; o.hi = kBoltzmann * tmid * 1e4; o.fission = fission; o.tsl = tsl && (i == 0 || more); o.T0 = c.chance(1, 2) ? tmid * c.uniform(0.5, 2) : 0;
    n.neutron = gen_ce(c, o, n.awr);
    if (i > 0 && n.neutron->tsl) gains(c, *n.neutron->tsl);
    for (auto& y : n.neutron->nubar.y) y *= 0.18;
    ns.push_back(n);
  }
  return ns;
}
inline bool many(const std::vector<CeNuclide>& ns) { return ns.size() > 3; }
inline bool gen_ce_problem(pbt::Case& c, Input& in, GeomOpt& g, const std::vector<CeNuclide>& ns, double E0, double tmid) {
  g.scale = c.logreal(0.1, 10); g.max_depth = 2; g.coincident = false;
  if (c.chance(1, 3)) g.offset = V3{c.real(-3, 3), c.real(-3, 3), c.real(-3, 3)} * g.scale;
  gen_regions(c, in, g);
  if (!gen_start(c, in, g)) return false;
  int nm = c.range(1, many(ns) ? 6 : 2), nn = ns.size();
  for (int i = 0; i < nm; i++) {
    Mat m; m.name = "m" + std::to_string(i);
    int k = c.range(1, nn), st = c.below(nn);
    for (int j = 0; j < k; j++) m.nuclides.push_back({ns[(st + j) % nn].name, c.logreal(0.1, 10)});
    m.aden = 1; m.aden = c.uniform(0.3, 2) / g.scale / (double)macro(ns, m, E0, tmid);
    in.materials.push_back(m);
  }
  for (auto& r : in.regions) if (!r.is_void) r.material = in.materials[c.below(nm)].name;
  in.energy = num(E0);
  in.direction_xml = c.chance(1, 2) ? "<isotropic/>" : dir_xml(gen_dir(c));
  int nt = c.range(1, 3);
  for (int i = 0; i < nt; i++) {
    Tally t; t.name = "t" + std::to_string(i); t.surface = in.surfaces[c.chance(1, 3) ? 0 : c.below(in.surfaces.size())].name;
    if (c.chance(1, 3)) { t.cosine = gen_cos_axis(c); t.ref = gen_dir(c); }
    if (c.chance(1, 2)) { t.energy.kind = Axis::logspace; t.energy.min = std::log10(kBoltzmann * tmid) - c.uniform(0.5, 2); t.energy.max = t.energy.min + c.uniform(0.5, 4); t.energy.bins = c.range(1, 4); if (std::pow(10., t.energy.max) > E0 && std::fabs(E0 / std::pow(10., t.energy.max) - 1) < 1e-6) return false; }
    in.tallies.push_back(t);
  }
  use_surfaces(in);
  confuse(c, in);
  return true;
}
// a problem of any kind the program supports, which ends
inline bool gen_any(pbt::Case& c, Input& in, Files& f, std::string& kind, GeomOpt& g) {
  if (!c.chance(2, 5)) { kind = "multigroup"; ProbOpt o; o.photons = c.chance(1, 4); o.sens = c.chance(1, 2); return gen_problem(c, in, o, &g); }
  bool tsl = c.chance(1, 3);
  kind = tsl ? "thermal scattering" : "continuous energy";
  double T = tsl ? c.uniform(400, 600) : c.uniform(150, 1200);
  auto ns = gen_ce_nuclides(c, tsl, true, T);
  for (auto& n : ns) if (n.neutron->tsl) gains(c, *n.neutron->tsl);
  bool photons = c.chance(1, 4);
  if (photons) {
    kind += " with photons";
    for (auto& n : ns) { CeOpt o; o.lo = kBoltzmann * T * 1e-3; o.hi = o.lo * 1e7; o.fission = c.chance(1, 3); n.photon = gen_ce(c, o, n.awr); if (!n.photon->capture) n.photon->capture = Eval{gen_xs(c, gen_axis(c, 2, o.lo, o.hi, true), 1), T}, n.photon->total.reset(); }
    in.particles = "neutron photon";
  }
  double E0 = kBoltzmann * T * c.logreal(0.1, 300);
  in.nuclides_xml = ce_xml(ns, f);
  if (!gen_ce_problem(c, in, g, ns, E0, T)) return false;
  if (photons && c.chance(1, 2)) in.type = "photon";
  bool lin = c.chance(1, 2);
  gen_temperatures(c, in, T * 0.5, T * 1.5, lin, c.chance(1, 3));
  in.tracking = lin || c.chance(1, 2) ? "cell delta" : "surface";
  if (c.chance(1, 2)) { std::string n; for (auto& r : in.regions) if (!r.is_void) n = mat_of(in, (int)(&r - &in.regions[0]))->nuclides[0].first; in.perturbations.push_back({"p", n}); in.tallies[0].sens.push_back("p"); }
  return true;
}
// d turned by an angle of cosine mu about a random azimuth
inline V3 deflect(pbt::Rng& r, V3 d, double mu) {
  V3 e = d.cross(std::fabs(d.x) < 0.7 ? V3{1, 0, 0} : V3{0, 1, 0}).unit(), f = d.cross(e);
  double p = 2 * M_PI * r.unit(), s = std::sqrt(std::max(0., 1 - mu * mu));
  return (d * mu + e * (s * std::cos(p)) + f * (s * std::sin(p))).unit();
}
// an independent walk through continuous-energy regions whose temperature may vary
struct Walk {
  const Input& in; const std::vector<CeNuclide>& ns; const Field& fl; double nudge;
  std::vector<int> rm; std::vector<std::vector<std::pair<int, double>>> mix;
  Walk(const Input& i, const std::vector<CeNuclide>& n, const Field& f, double scale) : in{i}, ns{n}, fl{f}, nudge{1e-9 * scale} {
    for (auto& m : in.materials) { double s = 0; for (auto& q : m.nuclides) s += q.second; mix.emplace_back(); for (auto& q : m.nuclides) for (size_t k = 0; k < ns.size(); k++) if (ns[k].name == q.first) { mix.back().push_back({(int)k, q.second / s}); break; } }
    for (auto& r : in.regions) { int x = -1; for (size_t k = 0; k < in.materials.size(); k++) if (!r.is_void && in.materials[k].name == r.material) x = k; rm.push_back(x); }
  }
  double bound(int m, double E, double Thi) const {
    double s = 0;
    for (auto& [k, f] : mix[m]) {
      const CeData& d = *ns[k].neutron; double v = 0, w = 0;
      if (d.capture) v += (double)d.capture->xs.at(E);
      if (d.fission) v += (double)d.fission->xs.at(E);
      if (tsl_valid(d, E, true)) { double x = 0; for (double T : d.tsl->Ts) x = std::max(x, (double)d.tsl->total(E, T)); s += f * (v + x); continue; }
      if (d.scatter) { double x = (double)d.scatter->xs.at(E); v += std::max(x, x * (double)(fg_adjust(ns[k].awr, E, Thi) / fg_adjust(ns[k].awr, E, d.scatter->T))); }
      if (d.total) w = (double)d.total->xs.at(E);
      s += f * std::max(v, w);
    }
    return s * 1.000001;
  }
  template <class F> void history(pbt::Rng& r, V3 d0, double E0, F on_cross) const {
    struct P { V3 x, d; double E; };
    std::vector<P> st{{in.pos, d0, E0}}; size_t steps = 0;
    while (!st.empty()) {
      P p = st.back(); st.pop_back(); int cell = in.locate(p.x);
      while (true) {
        if (++steps > 2000000) throw pbt::Failure{"reference walk does not end"};
        int m = rm[cell];
        double Thi = in.regions[cell].temperature ? *in.regions[cell].temperature : fl.upper();
        double M = bound(m, p.E, Thi), dc = -std::log(r.open()) / (M * in.materials[m].aden);
        Ld ds = std::numeric_limits<Ld>::infinity(); int sf = -1;
        for (auto& s : in.regions[cell].sides) for (Ld t : in.surfaces[s.first].roots(p.x, p.d)) if (t > 0 && t < ds) { ds = t; sf = s.first; }
        if (dc < ds) {
          p.x = p.x + p.d * dc;
          double T = (double)temp_at(in, fl, cell, p.x), tot = 0; std::vector<double> w;
          for (auto& [k, f] : mix[m]) { w.push_back(f * (double)ce_total(ns[k], true, p.E, T)); tot += w.back(); }
          if (tot > M) throw pbt::Failure{"reference bound too small"};
          double u = r.unit() * M;
          if (u >= tot) continue;
          size_t i = 0; while (i + 1 < w.size() && u >= w[i]) u -= w[i++];
          const CeNuclide& n = ns[mix[m][i].first]; const CeData& d = *n.neutron;
          double cap = d.capture ? (double)d.capture->xs.at(p.E) : 0, sc = (double)ce_scatter(n, true, p.E, T), fi = d.fission ? (double)d.fission->xs.at(p.E) : 0;
          double v = r.unit() * (cap + sc + fi);
          if (v < cap) break;
          if (v < cap + sc) {
            if (tsl_valid(d, p.E, true)) { auto [e, mu] = TslRef(*d.tsl, n.awr, p.E, T).sample(r); p.E = e; p.d = deflect(r, p.d, mu); continue; }
            auto o = ref_free_gas(r, n.awr, p.E, T, p.d); p.E = o.E; p.d = o.d; continue;
          }
          int y = (int)((double)d.nubar.at(p.E) + r.unit());
          for (int q = 0; q < y; q++) st.push_back({p.x, smooth_dir(r), p.E});
          break;
        }
        if (sf < 0) throw pbt::Failure{"reference walk escapes"};
        p.x = p.x + p.d * ((double)ds + nudge);
        cell = in.locate(p.x);
        if (cell < 0) throw pbt::Failure{"reference walk leaves the geometry"};
        on_cross(sf, p.d, p.E);
        if (in.regions[cell].is_void) break;
      }
    }
  }
};
} // namespace model
