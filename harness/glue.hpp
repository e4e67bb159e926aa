// conversions between the reference model and the code under test
#pragma once
#include "geomgen.hpp"
#include "Particle.hpp"
#include "Point.hpp"
namespace model {
inline Point P(V3 v) { return Point{v.x, v.y, v.z}; }
inline V3 V(const Point& p) { return {p.Dot(Point{1, 0, 0}), p.Dot(Point{0, 1, 0}), p.Dot(Point{0, 0, 1})}; }
inline Direction D(V3 v) { return Direction{v.x, v.y, v.z}; }
} // namespace model
