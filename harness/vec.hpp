// The parts of the drivers for spec/Vec.tla that representations and differentials have in common.
#ifndef VERIF_VEC_HPP
#define VERIF_VEC_HPP
#include <array>
#include <cmath>
#include <memory>
#include <boost/variant.hpp>
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/make_scaled_unit.hpp>
#include <boost/units/scale.hpp>
#include "shown.hpp"

using proto::Args; using proto::Obs; using proto::jarr;
namespace bun = boost::units;
typedef std::array<double, 3> V3;
inline std::string describe() { try { throw; } catch (std::exception const&) { return "exception"; } catch (...) { return "unknown"; } }
inline std::string d(double v) { return "\"" + Obs::d17(v) + "\""; }
inline std::string d3(V3 const& v) { return jarr({d(v[0]), d(v[1]), d(v[2])}); }
inline double thousandths(std::string const& s) { return std::stod(s) / 1000; }
inline V3 v3(Args const& a, int i) { return V3{thousandths(a[i]), thousandths(a[i + 1]), thousandths(a[i + 2])}; }
[[noreturn]] inline void bad() { std::fprintf(stderr, "vec: bad operation\n"); std::exit(97); }

// A quantity in SI units, whatever its unit and precision.
template <typename Q> double si(Q const& q) {
    typedef bun::unit<typename bun::get_dimension<Q>::type, bun::si::system> U;
    return static_cast<double>(q.value()) * bun::conversion_factor(typename Q::unit_type(), U());
}
inline double si(double v) { return v; }

// Where the three components of one kind of vector point to: azimuth in the xy plane and, for S and D, the angle from the
// z axis, for E the elevation above the plane.  D gives the second angle times the cosine of the first.
inline V3 geo(char kind, V3 const& c) {
    if (kind == 'C') return c;
    double a = c[0], b = kind == 'D' ? c[1] / std::cos(a) : c[1], r = c[2];
    if (kind == 'E') return {r * std::cos(a) * std::cos(b), r * std::sin(a) * std::cos(b), r * std::sin(b)};
    return {r * std::cos(a) * std::sin(b), r * std::sin(a) * std::sin(b), r * std::cos(b)};
}
inline bool principal(char kind, V3 const& c) {
    double const pi = 3.14159274102;            // a float pi may be a little larger than pi
    if (kind == 'C') return true;
    if (!(c[2] >= 0 && std::abs(c[0]) <= 2 * pi)) return false;
    if (kind == 'E') return std::abs(c[1]) <= pi / 2;
    return kind == 'D' || (c[1] >= 0 && c[1] <= pi);
}
template <typename T> struct Box { T v; };
#endif
