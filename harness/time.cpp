// Conformance driver for spec/Time.tla: Julian dates, sidereal time, obliquity, decimal hours, units of length.
#include <boost/astronomy/time/time_conversions.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include <boost/astronomy/units/length.hpp>
#include "proto.hpp"

using proto::Args; using proto::Obs; using proto::jarr;
namespace bat = boost::astronomy::time;
namespace bau = boost::astronomy::units;
namespace pt = boost::posix_time;
namespace gr = boost::gregorian;

static proto::Per<pt::ptime> now_;
static pt::ptime& now() { return now_.own(); }
static std::string describe() { try { throw; } catch (std::exception const&) { return "exception"; } catch (...) { return "unknown"; } }
static void parts(Obs& o, decimal_hour const& h) {
    o.dbl("value", h.get());
    Obs p; p.num("h", h.get_hours()); p.num("m", h.get_minutes()); p.dbl("s", h.get_seconds());
    o.raw("parts", "{" + p.s + "}");
    // the parts always make up the value
    double back = h.get_hours() + h.get_minutes() / 60.0 + h.get_seconds() / 3600.0;
    o.boolean("whole", std::abs(back - h.get()) <= 1e-9 * std::max(1.0, std::abs(h.get())) && std::abs(h.get_minutes()) < 60 && std::abs(h.get_seconds()) < 60.0000001);
    std::ostringstream out; out << h;
    char want[200]; std::snprintf(want, sizeof want, "%ldh %ldm %fs", h.get_hours(), h.get_minutes(), h.get_seconds());
    o.boolean("shown", out.str().find(want) != std::string::npos);
}
template <typename A, typename B> static double conv(double v) { return boost::units::quantity<B>(v * A()).value(); }
template <typename A> static double conv_to(std::string const& b, double v) {
    if (b == "m") return conv<A, bau::length_metre>(v);
    if (b == "cm") return conv<A, bau::length_centimetre>(v);
    if (b == "au") return conv<A, bau::length_astronomical_unit>(v);
    if (b == "pc") return conv<A, bau::length_parsec>(v);
    if (b == "light_second") return conv<A, bau::length_light_second>(v);
    if (b == "light_minute") return conv<A, bau::length_light_minute>(v);
    if (b == "light_hour") return conv<A, bau::length_light_hour>(v);
    if (b == "light_day") return conv<A, bau::length_light_day>(v);
    if (b == "light_year") return conv<A, bau::length_light_year>(v);
    std::exit(97);
}
// v of the named unit, written with the constants a user writes
template <typename U> static double from(std::string const& b, double v, U const& one, U const& many) {
    auto q = v * one; auto r = v * many;
    if (!(q == r)) throw std::runtime_error("singular and plural differ");
    return conv_to<U>(b, q.value());
}

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["at"] = [](Args const& a, Obs&) { now() = pt::ptime(gr::date(std::stoi(a[0]), std::stoi(a[1]), std::stoi(a[2])), pt::seconds(std::stol(a[3])) + pt::microseconds(std::stol(a[4]))); };
    h["next_day"] = [](Args const&, Obs&) { now() += gr::days(1); };
    h["tick"] = [](Args const& a, Obs&) { now() += pt::seconds(std::stol(a[0])); };
    h["jd"] = [](Args const&, Obs& o) { double j = 2 * bat::julian_date(now()); if (j == std::floor(j)) o.num("jd2", (long long)j); else o.dbl("jd2", j); };
    h["gst"] = [](Args const&, Obs& o) { o.dbl("h", bat::GST(now()).get()); };
    h["lst"] = [](Args const& a, Obs& o) { o.dbl("h", bat::LST(std::stod(a[0]) / 1000, a[1] == "E" ? bat::DIRECTION::EAST : bat::DIRECTION::WEST, now()).get()); };
    h["meridian"] = [](Args const&, Obs& o) {                  // longitudes a few bits around the one whose local sidereal time is 0
        double g = bat::GST(now()).get(); bool within = true, round = true;
        for (int side = 0; side < 4; side++) {
            double const l = 15 * (side < 2 ? g : 24 - g); double x = l;
            for (int k = 0; k < 60; k++) {
                double v = side == 0 ? bat::LST(x, bat::DIRECTION::WEST, now()).get() : side == 1 ? bat::LST(-x, bat::DIRECTION::EAST, now()).get()
                         : side == 2 ? bat::LST(x, bat::DIRECTION::EAST, now()).get() : bat::LST(-x, bat::DIRECTION::WEST, now()).get();
                within = within && v >= 0 && v < 24; round = round && (v < 1e-9 || v > 24 - 1e-9);
                x = k == 30 ? l : std::nextafter(x, k < 30 ? 1e9 : -1e9);
            }
        }
        o.boolean("within", within); o.boolean("round", round);
    };
    h["eps"] = [](Args const&, Obs& o) { o.dbl("rad", boost::astronomy::coordinate::obliquity_of_ecliptic(now().date()).get().value()); };
    h["jdyear"] = [](Args const& a, Obs& o) {
        std::vector<std::string> runs; long long start = 0, n = 0; std::uint32_t mix = 12345;
        gr::date d(std::stoi(a[0]), 1, 1), last(std::stoi(a[0]), 12, 31);
        auto flush = [&] { if (n) runs.push_back("[" + std::to_string(start) + "," + std::to_string(n) + "]"); n = 0; };
        for (long i = 0, days = (last - d).days(); i <= days; i++) {
            mix = mix * 1664525u + 1013904223u;                // any time of the day
            double j = 2 * bat::julian_date(pt::ptime(d + gr::days(i), pt::seconds(i % 3 ? mix % 86400 : i % 2 ? 86399 : 0)));
            if (j != std::floor(j)) { flush(); runs.push_back("[\"" + Obs::d17(j) + "\",1]"); continue; }
            if (n && j != start + 2 * n) flush();
            if (!n) start = (long long)j;
            n++;
        }
        flush(); o.raw("runs", jarr(runs));
    };
    h["dh"] = [](Args const& a, Obs& o) { parts(o, decimal_hour(std::stod(a[0]) / std::stod(a[1]))); };
    h["hms"] = [](Args const& a, Obs& o) { parts(o, decimal_hour(std::stod(a[0]), std::stod(a[1]), std::stod(a[2]) / 1000)); };
    h["sum"] = [](Args const& a, Obs& o) { parts(o, decimal_hour(std::stod(a[0]) / 1000, std::stod(a[1]) / 1000, std::stod(a[2]) / 1000)); };
    h["length"] = [](Args const& a, Obs& o) {
        double v = std::stod(a[0]), r; std::string const& t = a[2];
        if (a[1] == "m") { r = from(t, v, bau::metre, bau::metres); if (r != from(t, v, bau::meter, bau::meters)) throw std::runtime_error("spelling"); }
        else if (a[1] == "cm") { r = from(t, v, bau::centimetre, bau::centimetres); if (r != from(t, v, bau::centimeter, bau::centimeters)) throw std::runtime_error("spelling"); }
        else if (a[1] == "au") r = from(t, v, bau::astronomical_unit, bau::astronomical_units);
        else if (a[1] == "pc") r = from(t, v, bau::parsec, bau::parsecs);
        else if (a[1] == "light_second") r = from(t, v, bau::light_second, bau::light_seconds);
        else if (a[1] == "light_minute") r = from(t, v, bau::light_minute, bau::light_minutes);
        else if (a[1] == "light_hour") r = from(t, v, bau::light_hour, bau::light_hours);
        else if (a[1] == "light_day") r = from(t, v, bau::light_day, bau::light_days);
        else if (a[1] == "light_year") r = from(t, v, bau::light_year, bau::light_years);
        else std::exit(97);
        o.dbl("v", r);
    };
    return proto::run(argc, argv, h, [] { now() = pt::ptime(gr::date(2000, 1, 1)); }, describe);
}
