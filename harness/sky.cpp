// Conformance driver for spec/Sky.tla: celestial coordinates and the rotations between their systems.
#include <array>
#include <cmath>
#include <memory>
#include <boost/units/io.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include "proto.hpp"
#include "shown.hpp"

using proto::Args; using proto::Obs; using proto::jarr;
namespace bac = boost::astronomy::coordinate;
namespace bgm = boost::geometry;

static std::string describe() { try { throw; } catch (std::exception const&) { return "exception"; } catch (...) { return "unknown"; } }

// One class of coordinates, its functions under common names.
#define KIND(NAME, TYPE, ONE, TWO, BOTH) \
    struct NAME { \
        template <typename... A> using type = bac::TYPE<A...>; \
        template <typename C> static auto get1(C const& c) { return c.get_##ONE(); } \
        template <typename C> static auto get2(C const& c) { return c.get_##TWO(); } \
        template <typename C> static auto get(C const& c) { return c.get_##BOTH(); } \
        template <typename C, typename Q> static void set1(C& c, Q const& q) { c.set_##ONE(q); } \
        template <typename C, typename Q> static void set2(C& c, Q const& q) { c.set_##TWO(q); } \
        template <typename C, typename Q, typename P> static void set(C& c, Q const& q, P const& p) { c.set_##BOTH(q, p); } \
        template <typename Q, typename P> static auto make(Q const& q, P const& p) { return bac::make_##TYPE(q, p); } \
    };
KIND(Horizon, horizon_coord, altitude, azimuth, altitude_azimuth)
KIND(Ha, equatorial_ha_coord, ha, dec, ha_dec)
KIND(Ra, equatorial_ra_coord, ra, dec, ra_dec)
KIND(Ecliptic, ecliptic_coord, lat, lon, lat_lon)
KIND(Galactic, galactic_coord, lat, lon, lat_lon)

struct Coord {
    virtual ~Coord() {}
    virtual std::unique_ptr<Coord> clone(bool assign) const = 0;
    virtual void set1(double) = 0; virtual void set2(double) = 0; virtual void both(double, double) = 0;
    virtual void look(Obs&) const = 0;
};
template <typename K, typename T, typename U1, typename U2> struct CoordOf : Coord {
    typedef boost::units::quantity<U1, T> Q1; typedef boost::units::quantity<U2, T> Q2;
    typedef typename K::template type<T, Q1, Q2> C;
    C c;
    static Q1 q1(double v) { return Q1::from_value((T)v); }
    static Q2 q2(double v) { return Q2::from_value((T)v); }
    CoordOf() {}
    CoordOf(C const& o) : c(o) {}
    CoordOf(std::string const& how, double a, double b)
        : c(how == "ctor" ? C(q1(a), q2(b)) : how == "make" ? C(K::make(q1(a), q2(b))) : C()) {
        if (how == "set") K::set(c, q1(a), q2(b));
        if (how == "each") { K::set2(c, q2(b)); K::set1(c, q1(a)); }
    }
    std::unique_ptr<Coord> clone(bool assign) const override {
        std::unique_ptr<CoordOf> n(assign ? new CoordOf("ctor", 1, 2) : new CoordOf(c));
        if (assign) n->c = c;
        return std::move(n);
    }
    void set1(double v) override { K::set1(c, q1(v)); }
    void set2(double v) override { K::set2(c, q2(v)); }
    void both(double a, double b) override { K::set(c, q1(a), q2(b)); }
    static std::string d(double v) { return "\"" + Obs::d17(v) + "\""; }
    void look(Obs& o) const override {
        o.raw("v", jarr({d(K::get1(c).value()), d(K::get2(c).value())}));
        auto t = K::get(c);
        o.raw("pair", jarr({d(std::get<0>(t).value()), d(std::get<1>(t).value())}));
        auto p = c.get_point();
        o.raw("point", jarr({d(bgm::get<0>(p)), d(bgm::get<1>(p))}));
        std::ostringstream out; out << c; shown(o, out.str());
    }
};
typedef boost::units::si::plane_angle Rad; typedef boost::units::degree::plane_angle Deg;
template <typename K> static std::unique_ptr<Coord> coord(std::string const& t, std::string const& how, double a, double b) {
    if (t == "rr") return std::make_unique<CoordOf<K, double, Rad, Rad>>(how, a, b);
    if (t == "dd") return std::make_unique<CoordOf<K, double, Deg, Deg>>(how, a, b);
    if (t == "rd") return std::make_unique<CoordOf<K, double, Rad, Deg>>(how, a, b);
    if (t == "dr") return std::make_unique<CoordOf<K, double, Deg, Rad>>(how, a, b);
    if (t == "fr") return std::make_unique<CoordOf<K, float, Rad, Rad>>(how, a, b);
    if (t == "fd") return std::make_unique<CoordOf<K, float, Deg, Deg>>(how, a, b);
    std::exit(97);
}
static proto::Per<std::array<std::unique_ptr<Coord>, 4>> regs_;
static std::array<std::unique_ptr<Coord>, 4>& regs() { return regs_.own(); }
static double thousandths(std::string const& s) { return std::stod(s) / 1000; }
static Coord& reg(std::string const& s) { return *regs().at(std::stoi(s)); }

// ---- directions
typedef boost::numeric::ublas::matrix<double> M;
static proto::Per<M> vec_;
static M& vec() { return vec_.own(); }
static void direction(Obs& o) {
    auto d = [](double v) { return "\"" + Obs::d17(v) + "\""; };
    o.raw("vec", jarr({d(vec()(0, 0)), d(vec()(1, 0)), d(vec()(2, 0))}));
    auto p = bac::extract_coordinates(vec()).get_coordinates();
    double theta = p.first.value(), phi = p.second.value(), rho = std::hypot(vec()(0, 0), vec()(1, 0)), pi = std::acos(-1.0);
    o.dbl("z", std::sin(phi));
    o.raw("xy", jarr({d(rho * std::cos(theta)), d(rho * std::sin(theta))}));
    o.boolean("ok", std::abs(theta) <= pi + 1e-12 && std::abs(phi) <= pi / 2 + 1e-12);
}
// f(conversion) with the conversion in question, for an angle of a[0] (unit) and a[1] (thousandths)
template <template <typename...> class C, typename E, typename F> static void angled(std::string const& u, double v, F f) {
    typedef boost::units::quantity<Deg> QD; typedef boost::units::quantity<Rad> QR;
    if (u == "deg") { C<double, QD, E> c(QD::from_value(v)); f(c); } else { C<double, QR, E> c(QR::from_value(v)); f(c); }
}
template <typename E, typename F> static void conversion(std::string const& k, std::string const& u, double v, F f) {
    if (k == "hh") angled<bac::ha_dec_horizon, E>(u, v, f);
    else if (k == "hr") angled<bac::ha_dec_ra_dec, E>(u, v, f);
    else if (k == "er") angled<bac::ecliptic_to_ra_dec, E>(u, v, f);
    else if (k == "re") angled<bac::ra_dec_to_ecliptic, E>(u, v, f);
    else if (k == "gr") { bac::galactic_to_ra_dec<E> c; f(c); }
    else if (k == "rg") { bac::ra_dec_to_galactic<E> c; f(c); }
    else std::exit(97);
}
struct Cols {
    Obs& o;
    template <typename C> void operator()(C& c) const {
        auto m = c.get(); std::vector<std::string> cols;
        for (int j = 0; j < 3; j++) { std::vector<std::string> col; for (int i = 0; i < 3; i++) col.push_back("\"" + Obs::d17(m(i, j)) + "\""); cols.push_back(jarr(col)); }
        o.raw("cols", jarr(cols)); o.str("name", c.to_string());
    }
};
struct Apply { template <typename C> void operator()(C& c) const { vec() = boost::numeric::ublas::prod(c.get(), vec()); } };

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["coord"] = [](Args const& a, Obs&) {            // r kind type how a b
        double x = thousandths(a[4]), y = thousandths(a[5]); std::unique_ptr<Coord> c;
        if (a[1] == "horizon") c = coord<Horizon>(a[2], a[3], x, y);
        else if (a[1] == "ha") c = coord<Ha>(a[2], a[3], x, y);
        else if (a[1] == "ra") c = coord<Ra>(a[2], a[3], x, y);
        else if (a[1] == "ecliptic") c = coord<Ecliptic>(a[2], a[3], x, y);
        else if (a[1] == "galactic") c = coord<Galactic>(a[2], a[3], x, y);
        else std::exit(97);
        regs().at(std::stoi(a[0])) = std::move(c);
    };
    h["set1"] = [](Args const& a, Obs&) { reg(a[0]).set1(thousandths(a[1])); };
    h["set2"] = [](Args const& a, Obs&) { reg(a[0]).set2(thousandths(a[1])); };
    h["setboth"] = [](Args const& a, Obs&) { reg(a[0]).both(thousandths(a[1]), thousandths(a[2])); };
    h["copy"] = [](Args const& a, Obs&) { auto c = reg(a[0]).clone(a[2] == "assign"); regs().at(std::stoi(a[1])) = std::move(c); };
    h["look"] = [](Args const& a, Obs& o) { reg(a[0]).look(o); };
    h["dir"] = [](Args const& a, Obs& o) {            // unit a unit b single
        typedef boost::units::quantity<Deg> QD; typedef boost::units::quantity<Rad> QR; typedef boost::units::quantity<Rad, float> QF;
        double pi = std::acos(-1.0), x = thousandths(a[1]), y = thousandths(a[3]), xr = a[0] == "deg" ? x * pi / 180 : x, yr = a[2] == "deg" ? y * pi / 180 : y;
        if (a[4] == "1") vec() = bac::column_vector<float, QF>(QF::from_value((float)xr), QF::from_value((float)yr)).get();
        else if (a[0] == "deg" && a[2] == "deg") vec() = bac::column_vector<double, QD>(QD::from_value(x), QD::from_value(y)).get();
        else vec() = bac::column_vector<double, QR>(QR::from_value(xr), QR::from_value(yr)).get();
        direction(o);
    };
    h["rot"] = [](Args const& a, Obs& o) { conversion<double>(a[0], a[1], thousandths(a[2]), Apply()); direction(o); };
    h["mat"] = [](Args const& a, Obs& o) {
        if (a[3] == "1") conversion<float>(a[0], a[1], thousandths(a[2]), Cols{o}); else conversion<double>(a[0], a[1], thousandths(a[2]), Cols{o});
    };
    h["again"] = [](Args const&, Obs& o) {
        auto p = bac::extract_coordinates(vec()).get_coordinates();
        vec() = bac::column_vector<>(p.first, p.second).get(); direction(o);
    };
    return proto::run(argc, argv, h, [] { for (auto& r : regs()) r.reset(); vec() = M(3, 1); vec()(0, 0) = 1; vec()(1, 0) = vec()(2, 0) = 0; }, describe);
}
