// Representations of positions, under common names.
#ifndef VERIF_REP_HPP
#define VERIF_REP_HPP
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include "vec.hpp"
namespace bac = boost::astronomy::coordinate;
namespace bgm = boost::geometry;
typedef bun::make_scaled_unit<bun::si::length, bun::scale<10, bun::static_rational<3>>>::type km;
template <typename U, typename T> using Q = bun::quantity<U, T>;
typedef bun::si::length m_; typedef bun::cgs::length cm_; typedef bun::degree::plane_angle deg_; typedef bun::si::plane_angle rad_;
typedef bac::cartesian_representation<double, Q<m_, double>, Q<m_, double>, Q<m_, double>> Cm;
typedef bac::cartesian_representation<double, Q<m_, double>, Q<cm_, double>, Q<km, double>> Cx;
typedef bac::cartesian_representation<float, Q<m_, float>, Q<m_, float>, Q<m_, float>> Cf;
typedef bac::spherical_representation<double, Q<deg_, double>, Q<deg_, double>, Q<m_, double>> Sd;
typedef bac::spherical_representation<double, Q<rad_, double>, Q<deg_, double>, Q<km, double>> Sx;
typedef bac::spherical_representation<float, Q<rad_, float>, Q<rad_, float>, Q<m_, float>> Sf;
typedef bac::spherical_equatorial_representation<double, Q<deg_, double>, Q<deg_, double>, Q<m_, double>> Ed;
typedef bac::spherical_equatorial_representation<double, Q<deg_, double>, Q<rad_, double>, Q<km, double>> Ex;
typedef bac::spherical_equatorial_representation<float, Q<rad_, float>, Q<deg_, float>, Q<m_, float>> Ef;

template <typename R> struct K;
template <typename T, typename... A> struct K<bac::cartesian_representation<T, A...>> {
    static const char kind = 'C';
    template <typename R> static auto get1(R const& r) { return r.get_x(); }
    template <typename R> static auto get2(R const& r) { return r.get_y(); }
    template <typename R> static auto get3(R const& r) { return r.get_z(); }
    template <typename R> static auto tuple(R const& r) { return r.get_x_y_z(); }
    template <typename R, typename X> static void set1(R& r, X const& x) { r.set_x(x); }
    template <typename R, typename X> static void set2(R& r, X const& x) { r.set_y(x); }
    template <typename R, typename X> static void set3(R& r, X const& x) { r.set_z(x); }
    template <typename R, typename X, typename Y, typename Z> static void set(R& r, X const& x, Y const& y, Z const& z) { r.set_x_y_z(x, y, z); }
    template <typename X, typename Y, typename Z> static auto make(X const& x, Y const& y, Z const& z) { return bac::make_cartesian_representation(x, y, z); }
    template <typename X> static auto make(X const& x) { return bac::make_cartesian_representation(x); }
    template <typename R, typename X> static auto units(X const& x) { return bac::make_cartesian_representation<typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(x); }
};
#define ANGULAR(KIND, NAME) \
template <typename T, typename... A> struct K<bac::NAME<T, A...>> { \
    static const char kind = KIND; \
    template <typename R> static auto get1(R const& r) { return r.get_lat(); } \
    template <typename R> static auto get2(R const& r) { return r.get_lon(); } \
    template <typename R> static auto get3(R const& r) { return r.get_dist(); } \
    template <typename R> static auto tuple(R const& r) { return r.get_lat_lon_dist(); } \
    template <typename R, typename X> static void set1(R& r, X const& x) { r.set_lat(x); } \
    template <typename R, typename X> static void set2(R& r, X const& x) { r.set_lon(x); } \
    template <typename R, typename X> static void set3(R& r, X const& x) { r.set_dist(x); } \
    template <typename R, typename X, typename Y, typename Z> static void set(R& r, X const& x, Y const& y, Z const& z) { r.set_lat_lon_dist(x, y, z); } \
    template <typename X, typename Y, typename Z> static auto make(X const& x, Y const& y, Z const& z) { return bac::make_##NAME(x, y, z); } \
    template <typename X> static auto make(X const& x) { return bac::make_##NAME(x); } \
    template <typename R, typename X> static auto units(X const& x) { return bac::make_##NAME<typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(x); } \
};
ANGULAR('S', spherical_representation)
ANGULAR('E', spherical_equatorial_representation)

template <typename R> V3 raw(R const& r) { return {(double)K<R>::get1(r).value(), (double)K<R>::get2(r).value(), (double)K<R>::get3(r).value()}; }
template <typename R> V3 sis(R const& r) { return {si(K<R>::get1(r)), si(K<R>::get2(r)), si(K<R>::get3(r))}; }
template <typename R> V3 where(R const& r) { return geo(K<R>::kind, sis(r)); }
template <typename R> typename R::quantity1 q1(double v) { return R::quantity1::from_value((typename R::type)v); }
template <typename R> typename R::quantity2 q2(double v) { return R::quantity2::from_value((typename R::type)v); }
template <typename R> typename R::quantity3 q3(double v) { return R::quantity3::from_value((typename R::type)v); }
template <typename R> R build(std::string const& how, V3 const& c) {
    if (how == "ctor") return R(q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    if (how == "make") return K<R>::make(q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    R r;
    if (how == "set") K<R>::set(r, q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    else if (how == "each") { K<R>::set3(r, q3<R>(c[2])); K<R>::set2(r, q2<R>(c[1])); K<R>::set1(r, q1<R>(c[0])); }
    else bad();
    return r;
}
template <typename R> void put(R& r, int k, double v) { if (k == 1) K<R>::set1(r, q1<R>(v)); else if (k == 2) K<R>::set2(r, q2<R>(v)); else if (k == 3) K<R>::set3(r, q3<R>(v)); else bad(); }
#endif
