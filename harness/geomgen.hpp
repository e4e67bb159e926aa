#pragma once
#include "model.hpp"
namespace model {
inline double dyadic(pbt::Case& c, double lo, double hi) { return std::round(c.uniform(lo, hi) * 16) / 16; }
inline Surf gen_surface(pbt::Case& c, const std::string& name, double scale) {
  Surf s;
  s.name = name;
  s.kind = (Surf::Kind)c.below(3);
  bool neat = c.chance(1, 4);
  auto co = [&] { return neat ? dyadic(c, -scale, scale) : c.real(-scale, scale); };
  s.r = s.kind == Surf::planex ? co() : neat ? dyadic(c, 0.0625, scale) + 0.0625 : scale * c.logreal(1e-3, 1);
  if (s.kind == Surf::sphere && !c.chance(1, 3)) s.c = {co(), co(), co()};
  return s;
}
// a point related to the surface: anywhere, near it on either side
inline V3 gen_point_near(pbt::Case& c, const Surf& s, double scale) {
  int how = c.below(4);
  if (how == 0) return {c.real(-2 * scale, 2 * scale), c.real(-2 * scale, 2 * scale), c.real(-2 * scale, 2 * scale)};
  double f = how == 1 ? c.uniform(0, 2) : 1 + c.sign() * c.logreal(1e-11, 0.5);
  V3 d = gen_dir(c);
  switch (s.kind) {
  case Surf::sphere: return s.c + d * (s.r * f);
  case Surf::planex: return {s.r + (f - 1) * scale, c.real(-scale, scale), c.real(-scale, scale)};
  default: {
    double a = c.uniform(0, 2 * M_PI);
    if (c.chance(1, 4)) a = c.range(0, 3) * M_PI / 2;
    return {c.real(-scale, scale), s.r * f * std::cos(a), s.r * f * std::sin(a)};
  }
  }
}
} // namespace model
