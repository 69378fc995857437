// Conformance driver for spec/Frame.tla: frames and points on the sky.
#include <array>
#include <cmath>
#include <memory>
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/ref_frame/icrs.hpp>
#include <boost/astronomy/coordinate/ref_frame/cirs.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include "proto.hpp"

using proto::Args; using proto::Obs; using proto::jarr;
namespace bac = boost::astronomy::coordinate;
namespace bun = boost::units;
namespace pt = boost::posix_time;

static std::string describe() { try { throw; } catch (std::exception const&) { return "exception"; } catch (...) { return "unknown"; } }
static std::string d(double v) { return "\"" + Obs::d17(v) + "\""; }
typedef std::array<double, 3> V3;

// One class of frames, its functions under common names.
#define FRAME(NAME, TYPE, ONE, TWO, PM1, PM2, TUPLE, PMTUPLE) \
    struct NAME { \
        template <typename A, typename B> using type = bac::TYPE<A, B>; \
        template <typename F> static auto get1(F const& f) { return f.get_##ONE(); } \
        template <typename F> static auto get2(F const& f) { return f.get_##TWO(); } \
        template <typename F> static auto get(F const& f) { return f.get_##TUPLE(); } \
        template <typename F> static auto pm1(F const& f) { return f.get_##PM1(); } \
        template <typename F> static auto pm2(F const& f) { return f.get_##PM2(); } \
        template <typename F> static auto pm(F const& f) { return f.get_##PMTUPLE(); } \
        template <typename F, typename Q> static void set1(F& f, Q const& q) { f.set_##ONE(q); } \
        template <typename F, typename Q> static void set2(F& f, Q const& q) { f.set_##TWO(q); } \
        template <typename F, typename Q> static void setpm1(F& f, Q const& q) { f.set_##PM1(q); } \
        template <typename F, typename Q> static void setpm2(F& f, Q const& q) { f.set_##PM2(q); } \
        template <typename F, typename A, typename B, typename C> static void set(F& f, A const& a, B const& b, C const& c) { f.set_##TUPLE(a, b, c); } \
        template <typename F, typename A, typename B, typename C> static void setpm(F& f, A const& a, B const& b, C const& c) { f.set_##PMTUPLE(a, b, c); } \
    };
FRAME(AltAz, alt_az, alt, az, pm_alt, pm_az_cosalt, alt_az_dist, pm_alt_az_radial)
FRAME(Gal, galactic, b, l, pm_b, pm_l_cosb, b_l_dist, pm_b_l_radial)
FRAME(SuperGal, supergalactic, sgb, sgl, pm_sgb, pm_sgl_cossgb, sgb_sgl_dist, pm_sgb_sgl_radial)
FRAME(Icrs, icrs, dec, ra, pm_dec, pm_ra_cosdec, dec_ra_dist, pm_dec_ra_radial)
FRAME(Cirs, cirs, dec, ra, pm_dec, pm_ra_cosdec, dec_ra_dist, pm_dec_ra_radial)
FRAME(Helio, heliocentric, lat, lon, pm_lat, pm_lon_coslat, lat_lon_dist, pm_lat_lon_radial)
FRAME(Geo, geocentric, lat, lon, pm_lat, pm_lon_coslat, lat_lon_dist, pm_lat_lon_radial)

// times by number: -1 is no time at all, the others have odd fractions of a second
static pt::ptime at(long s) {
    if (s == -1) return pt::ptime(boost::date_time::not_a_date_time);
    return pt::ptime(boost::gregorian::date(2000, 1, 1)) + pt::seconds(s) + pt::microseconds(((s < 0 ? -s : s) * 7919 + 13) % 1000000);
}
static long secs(pt::ptime const& t) {
    if (t.is_special()) return t.is_not_a_date_time() ? -1 : -999999998;
    long n = (t - pt::ptime(boost::gregorian::date(2000, 1, 1))).total_seconds();
    for (long k = n - 2; k <= n + 2; k++) if (k != -1 && at(k) == t) return k;
    return -999999999;
}
typedef bac::spherical_equatorial_representation<double, bun::quantity<bun::degree::plane_angle>, bun::quantity<bun::degree::plane_angle>> Loc;
static Loc loc(V3 const& v) { return Loc(v[0] * bun::degree::degrees, v[1] * bun::degree::degrees, bun::quantity<bun::si::dimensionless>(v[2])); }
static std::string locs(Loc const& l) { return jarr({d(l.get_lat().value()), d(l.get_lon().value()), d(l.get_dist().value())}); }

// the parameters a frame has
template <typename F> static void params(F const&, Obs& o) { o.raw("par", "{\"none\":true}"); }
template <typename A, typename B> static void params(bac::cirs<A, B> const& f, Obs& o) { o.raw("par", "{\"time\":" + std::to_string(secs(f.get_obs_time())) + "}"); }
template <typename A, typename B> static void params(bac::heliocentric<A, B> const& f, Obs& o) { o.raw("par", "{\"time\":" + std::to_string(secs(f.get_equinox())) + "}"); }
template <typename A, typename B> static void params(bac::geocentric<A, B> const& f, Obs& o) { o.raw("par", "{\"time\":" + std::to_string(secs(f.get_equinox())) + "}"); }
template <typename A, typename B> static void params(bac::alt_az<A, B> const& f, Obs& o) {
    Obs p;
    p.raw("loc", locs(f.get_location())); p.dbl("pressure", f.get_pressure().value()); p.dbl("temperature", f.get_temprature().value());
    p.dbl("humidity", f.get_relative_humidity().value()); p.num("time", secs(f.get_obs_time()));
    auto t = f.get_frame_parameters();
    p.boolean("together", locs(std::get<0>(t)) == locs(f.get_location()) && std::get<1>(t).value() == f.get_pressure().value() &&
        std::get<2>(t).value() == f.get_temprature().value() && secs(std::get<3>(t)) == secs(f.get_obs_time()) && std::get<4>(t).value() == f.get_relative_humidity().value());
    o.raw("par", "{" + p.s + "}");
}
template <typename F> static void set_time(F&, long) { std::exit(97); }
template <typename A, typename B> static void set_time(bac::cirs<A, B>& f, long t) { f.set_obs_time(at(t)); }
template <typename A, typename B> static void set_time(bac::alt_az<A, B>& f, long t) { f.set_obs_time(at(t)); }
template <typename A, typename B> static void set_time(bac::heliocentric<A, B>& f, long t) { f.set_equinox(at(t)); }
template <typename A, typename B> static void set_time(bac::geocentric<A, B>& f, long t) { f.set_equinox(at(t)); }
template <typename F> static void set_par(F&, std::string const&, std::vector<double> const&) { std::exit(97); }
template <typename A, typename B> static void set_par(bac::alt_az<A, B>& f, std::string const& k, std::vector<double> const& v) {
    auto pa = [](double x) { return x * bun::si::pascals; };
    auto te = [](double x) { return bun::quantity<bun::celsius::temperature>::from_value(x); };
    if (k == "loc") f.set_location(loc({v[0], v[1], v[2]}));
    else if (k == "pressure") f.set_pressure(pa(v[0]));
    else if (k == "temperature") f.set_temprature(te(v[0]));
    else if (k == "humidity") f.set_relative_humidity(bun::quantity<bun::si::dimensionless>(v[0]));
    else f.set_frame_parameters(loc({v[0], v[1], v[2]}), pa(v[4]), te(v[5]), at((long)std::llround(v[3] * 1000)), bun::quantity<bun::si::dimensionless>(v[6]));
}

struct Frame {
    virtual ~Frame() {}
    virtual std::unique_ptr<Frame> clone(std::string const& how) const = 0;
    virtual void setc(int k, double v) = 0; virtual void setm(int k, double v) = 0;
    virtual void setall(V3 const&) = 0; virtual void setallm(V3 const&, bool whole) = 0;
    virtual void look(Obs&) const = 0; virtual void sep(Frame const&, Obs&) const = 0; virtual bool equiv(Frame const&) const = 0;
    virtual void time(long) = 0; virtual void par(std::string const&, std::vector<double> const&) = 0;
};
struct DD { typedef double T; typedef bun::degree::plane_angle A1; typedef bun::degree::plane_angle A2; typedef bun::si::length L; typedef bun::si::velocity S; };
struct RD { typedef double T; typedef bun::si::plane_angle A1; typedef bun::degree::plane_angle A2; typedef bun::cgs::length L; typedef bun::cgs::velocity S; };
struct FF { typedef float T; typedef bun::si::plane_angle A1; typedef bun::si::plane_angle A2; typedef bun::si::length L; typedef bun::si::velocity S; };

template <typename K, typename U> struct FrameOf;
template <typename K, typename U> static bool same(Frame const& f) { return dynamic_cast<FrameOf<K, U> const*>(&f) != nullptr; }
template <typename K, typename U> struct FrameOf : Frame {
    typedef typename U::T T;
    typedef bun::quantity<typename U::A1, T> Q1; typedef bun::quantity<typename U::A2, T> Q2; typedef bun::quantity<typename U::L, T> QL; typedef bun::quantity<typename U::S, T> QS;
    typedef bac::spherical_representation<T, Q1, Q2, QL> Rep;
    typedef bac::spherical_coslat_differential<T, Q1, Q2, QS> Dif;
    typedef typename K::template type<Rep, Dif> F;
    typedef bac::sky_point<F> Sky;
    // the same in other units
    typedef bun::quantity<bun::si::plane_angle, T> QR; typedef bun::quantity<bun::si::length, T> QM; typedef bun::quantity<bun::si::velocity, T> QV;
    typedef bac::spherical_representation<T, QR, QR, QM> ORep;
    typedef bac::spherical_coslat_differential<T, QR, QR, QV> ODif;
    F f;
    FrameOf(F const& o) : f(o) {}
    static Q1 q1(double v) { return Q1::from_value((T)v); }
    static Q2 q2(double v) { return Q2::from_value((T)v); }
    static QL ql(double v) { return QL::from_value((T)v); }
    static QS qs(double v) { return QS::from_value((T)v); }
    static F build(std::string const& how, V3 const& c, V3 const& m) {
        Q1 a = q1(c[0]), pa = q1(m[0]); Q2 b = q2(c[1]), pb = q2(m[1]); QL l = ql(c[2]); QS s = qs(m[2]);
        if (how == "ctor3") return F(a, b, l);
        if (how == "ctor6") return F(a, b, l, pa, pb, s);
        if (how == "rep") return F(Rep(a, b, l));
        if (how == "repdiff") return F(Rep(a, b, l), Dif(pa, pb, s));
        if (how == "orep") return F(ORep(QR(a), QR(b), QM(l)));
        if (how == "orepdiff") return F(ORep(QR(a), QR(b), QM(l)), ODif(QR(pa), QR(pb), QV(s)));
        if (how == "sky3") return Sky(a, b, l).get_point();
        if (how == "sky6") return Sky(a, b, l, pa, pb, s).get_point();
        if (how == "skyrep") return Sky(Rep(a, b, l), Dif(pa, pb, s)).get_point();
        F f;
        if (how == "set") { K::setpm(f, pa, pb, s); K::set(f, a, b, l); }
        else if (how == "each") { f.set_radial_velocity(s); K::setpm2(f, pb); K::setpm1(f, pa); f.set_distance(l); K::set2(f, b); K::set1(f, a); }
        else std::exit(97);
        return f;
    }
    std::unique_ptr<Frame> clone(std::string const& how) const override {
        if (how == "copy") return std::make_unique<FrameOf>(f);
        F other(q1(1), q2(2), ql(3), q1(4), q2(5), qs(6));
        if (how == "assign") { other = f; return std::make_unique<FrameOf>(other); }
        if (how == "point") { Sky s(f); return std::make_unique<FrameOf>(s.get_point()); }
        Sky s(other); s.set_point(f); Sky t; t = s;
        return std::make_unique<FrameOf>(t.get_point());
    }
    void setc(int k, double v) override { if (k == 1) K::set1(f, q1(v)); else if (k == 2) K::set2(f, q2(v)); else f.set_distance(ql(v)); }
    void setm(int k, double v) override { if (k == 1) K::setpm1(f, q1(v)); else if (k == 2) K::setpm2(f, q2(v)); else f.set_radial_velocity(qs(v)); }
    void setall(V3 const& v) override { K::set(f, q1(v[0]), q2(v[1]), ql(v[2])); }
    void setallm(V3 const& v, bool whole) override { if (whole) f.set_differential(Dif(q1(v[0]), q2(v[1]), qs(v[2]))); else K::setpm(f, q1(v[0]), q2(v[1]), qs(v[2])); }
    template <typename Tup> static std::string tup(Tup const& t) { return jarr({d(std::get<0>(t).value()), d(std::get<1>(t).value()), d(std::get<2>(t).value())}); }
    void look(Obs& o) const override {
        o.raw("c", jarr({d(K::get1(f).value()), d(K::get2(f).value()), d(f.get_distance().value())}));
        o.raw("tuple", tup(K::get(f))); o.raw("data", tup(f.get_data().get_lat_lon_dist()));
        o.raw("m", jarr({d(K::pm1(f).value()), d(K::pm2(f).value()), d(f.get_radial_velocity().value())}));
        o.raw("mtuple", tup(K::pm(f))); o.raw("diff", tup(f.get_differential().get_dlat_dlon_coslat_ddist()));
        auto pm = f.get_proper_motion(); o.raw("pm", jarr({d(std::get<0>(pm).value()), d(std::get<1>(pm).value())}));
        bac::base_frame<Rep, Dif> const& base = f; o.dbl("rv", base.get_radial_velocity().value());
        params(f, o);
    }
    void sep(Frame const& g, Obs& o) const override {
        F const& h = dynamic_cast<FrameOf const&>(g).f;
        double s = Sky(f).separation(Sky(h)).value(), t = f.get_angular_separation(h).value(), p = Sky(f).positional_angle(Sky(h)).value();
        o.dbl("sep", s); o.raw("legs", jarr({d(std::sin(t) * std::cos(p)), d(std::sin(t) * std::sin(p))}));
        o.boolean("ok", s == t && s >= 0 && s <= 3.1415926536 && std::abs(p) <= 3.1415926536);
    }
    template <typename G> static bool eq(F const& f, Frame const& g) { auto p = dynamic_cast<G const*>(&g); return p && Sky(f).is_equivalent_system(bac::sky_point<typename G::F>(p->f)); }
    template <typename L> static bool eqk(F const& f, Frame const& g) { return eq<FrameOf<L, DD>>(f, g) || eq<FrameOf<L, RD>>(f, g) || eq<FrameOf<L, FF>>(f, g); }
    bool equiv(Frame const& g) const override { return eqk<AltAz>(f, g) || eqk<Gal>(f, g) || eqk<SuperGal>(f, g) || eqk<Icrs>(f, g) || eqk<Cirs>(f, g) || eqk<Helio>(f, g) || eqk<Geo>(f, g); }
    void time(long t) override { set_time(f, t); }
    void par(std::string const& k, std::vector<double> const& v) override { set_par(f, k, v); }
};
template <typename K> static std::unique_ptr<Frame> make(std::string const& t, std::string const& how, V3 const& c, V3 const& m) {
    if (t == "dd") return std::make_unique<FrameOf<K, DD>>(FrameOf<K, DD>::build(how, c, m));
    if (t == "rd") return std::make_unique<FrameOf<K, RD>>(FrameOf<K, RD>::build(how, c, m));
    if (t == "f") return std::make_unique<FrameOf<K, FF>>(FrameOf<K, FF>::build(how, c, m));
    std::exit(97);
}
static proto::Per<std::array<std::unique_ptr<Frame>, 4>> regs_;
static std::array<std::unique_ptr<Frame>, 4>& regs() { return regs_.own(); }
static double thousandths(std::string const& s) { return std::stod(s) / 1000; }
static V3 v3(Args const& a, int i) { return V3{thousandths(a[i]), thousandths(a[i + 1]), thousandths(a[i + 2])}; }
static Frame& reg(std::string const& s) { return *regs().at(std::stoi(s)); }

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["frame"] = [](Args const& a, Obs&) {            // r kind type how c m
        auto c = v3(a, 4), m = v3(a, 7); auto& r = regs().at(std::stoi(a[0]));
        if (a[1] == "alt_az") r = make<AltAz>(a[2], a[3], c, m);
        else if (a[1] == "galactic") r = make<Gal>(a[2], a[3], c, m);
        else if (a[1] == "supergalactic") r = make<SuperGal>(a[2], a[3], c, m);
        else if (a[1] == "icrs") r = make<Icrs>(a[2], a[3], c, m);
        else if (a[1] == "cirs") r = make<Cirs>(a[2], a[3], c, m);
        else if (a[1] == "heliocentric") r = make<Helio>(a[2], a[3], c, m);
        else if (a[1] == "geocentric") r = make<Geo>(a[2], a[3], c, m);
        else std::exit(97);
    };
    h["setc"] = [](Args const& a, Obs&) { reg(a[0]).setc(std::stoi(a[1]), thousandths(a[2])); };
    h["setm"] = [](Args const& a, Obs&) { reg(a[0]).setm(std::stoi(a[1]), thousandths(a[2])); };
    h["setall"] = [](Args const& a, Obs&) { reg(a[0]).setall(v3(a, 1)); };
    h["setallm"] = [](Args const& a, Obs&) { reg(a[0]).setallm(v3(a, 1), a[4] == "whole"); };
    h["time"] = [](Args const& a, Obs&) { reg(a[0]).time(std::stol(a[1])); };
    h["par"] = [](Args const& a, Obs&) { std::vector<double> v; for (std::size_t i = 2; i < a.size(); i++) v.push_back(thousandths(a[i])); reg(a[0]).par(a[1], v); };
    h["copy"] = [](Args const& a, Obs&) { auto c = reg(a[0]).clone(a[2]); regs().at(std::stoi(a[1])) = std::move(c); };
    h["look"] = [](Args const& a, Obs& o) { reg(a[0]).look(o); };
    h["sep"] = [](Args const& a, Obs& o) { reg(a[0]).sep(reg(a[1]), o); };
    h["equiv"] = [](Args const& a, Obs& o) { o.boolean("same", reg(a[0]).equiv(reg(a[1]))); };
    return proto::run(argc, argv, h, [] { for (auto& r : regs()) r.reset(); }, describe);
}
