// Conformance driver for spec/Card.tla: one boost::astronomy::io::card.
#include <complex>
#include <memory>
#include <boost/astronomy/io/card.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include "proto.hpp"
#include "except.hpp"

namespace io = boost::astronomy::io;
using proto::Args; using proto::Obs; using proto::unhex;
typedef io::card<io::card_policy> Card;

static proto::Per<std::unique_ptr<Card>> mine_;
static std::unique_ptr<Card>& mine() { return mine_.own(); }
static proto::Per<bool> fresh_;
static bool& fresh() { return fresh_.own(); }

static void see(Obs& o) {
    if (fresh()) { o.str("raw", ""); o.str("key", ""); o.str("wkey", ""); return; }
    o.str("raw", mine()->raw_card());
    o.str("key", mine()->keyword());
    o.str("wkey", mine()->keyword(true));
}

template <typename F> static void guarded(Obs& o, F f) {
    try { f(); o.str("res", "ok"); }
    catch (...) { o.str("res", describe_fits()); }
    see(o);
}

// Calls f with the value written in the arguments, of the type named first.
template <typename F> static void with_value(std::string const& t, Args const& a, std::size_t at, F f) {
    auto s = [&](std::size_t k) { return unhex(a.at(at + k)); };
    if (t == "str") f(s(0));
    else if (t == "bool") f(s(0) == "T");
    else if (t == "int") f((int)std::stol(s(0)));
    else if (t == "uint") f((unsigned)std::stoul(s(0)));
    else if (t == "ll") f(std::stoll(s(0)));
    else if (t == "size") f((std::size_t)std::stoull(s(0)));
    else if (t == "dbl") f(std::stod(s(0)));
    else if (t == "flt") f(std::stof(s(0)));
    else if (t == "cint") f(std::complex<int>((int)std::stol(s(0)), (int)std::stol(s(1))));
    else if (t == "cdbl") f(std::complex<double>(std::stod(s(0)), std::stod(s(1))));
    else if (t == "cflt") f(std::complex<float>(std::stof(s(0)), std::stof(s(1))));
    else if (t == "csize") f(std::complex<std::size_t>(std::stoull(s(0)), std::stoull(s(1))));
    else std::exit(97);
}

static std::string js(bool v) { return v ? "\"T\"" : "\"F\""; }
static std::string js(int v) { return "\"" + std::to_string(v) + "\""; }
static std::string js(unsigned v) { return "\"" + std::to_string(v) + "\""; }
static std::string js(long long v) { return "\"" + std::to_string(v) + "\""; }
static std::string js(std::size_t v) { return "\"" + std::to_string(v) + "\""; }
static std::string js(double v) { return "\"" + Obs::d17(v) + "\""; }
static std::string js(std::string const& v) { return Obs::q(v); }
template <typename T> static std::string js(std::complex<T> v) { return "[" + js(v.real()) + "," + js(v.imag()) + "]"; }
template <typename T> static void rd(Obs& o) { Card const& c = *mine(); T v = c.value<T>(); o.raw("val", js(v)); }

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["parse"] = [](Args const& a, Obs& o) { std::string r = unhex(a.at(0)); guarded(o, [&] { std::unique_ptr<Card> n(new Card(r)); mine().swap(n); fresh() = false; }); };
    h["ctor"] = [](Args const& a, Obs& o) {
        std::string k = unhex(a.at(0)), v = unhex(a.at(1)), c = unhex(a.at(2));
        guarded(o, [&] { std::unique_ptr<Card> n(c.empty() ? new Card(k, v) : new Card(k, v, c)); mine().swap(n); fresh() = false; });
    };
    h["create"] = [](Args const& a, Obs& o) {                       // create type key comment value...
        std::string k = unhex(a.at(1)), c = unhex(a.at(2));
        with_value(a.at(0), a, 3, [&](auto v) { guarded(o, [&] { if (c.empty()) mine()->create_card(k, v); else mine()->create_card(k, v, c); fresh() = false; }); });
    };
    h["commentary"] = [](Args const& a, Obs& o) { std::string k = unhex(a.at(0)), t = unhex(a.at(1)); guarded(o, [&] { mine()->create_commentary_card(k, t); fresh() = false; }); };
    h["set"] = [](Args const& a, Obs& o) { with_value(a.at(0), a, 1, [&](auto v) { guarded(o, [&] { mine()->set_value(v); }); }); };
    h["read"] = [](Args const& a, Obs& o) {
        std::string t = a.at(0);
        guarded(o, [&] {
            if (t == "str") rd<std::string>(o);
            else if (t == "bool") rd<bool>(o);
            else if (t == "int") rd<int>(o);
            else if (t == "uint") rd<unsigned>(o);
            else if (t == "ll") rd<long long>(o);
            else if (t == "size") rd<std::size_t>(o);
            else if (t == "dbl") rd<double>(o);
            else if (t == "flt") rd<float>(o);
            else if (t == "cint") rd<std::complex<int>>(o);
            else if (t == "cdbl") rd<std::complex<double>>(o);
            else if (t == "cflt") rd<std::complex<float>>(o);
            else if (t == "csize") rd<std::complex<std::size_t>>(o);
            else std::exit(97);
        });
    };
    h["vwc"] = [](Args const&, Obs& o) { guarded(o, [&] { o.str("val", mine()->value_with_comment()); }); };
    h["copy"] = [](Args const&, Obs& o) { guarded(o, [&] { std::unique_ptr<Card> n(new Card(*mine())); mine().swap(n); n->create_card("OTHER", 99); }); };
    h["eq"] = [](Args const& a, Obs& o) { std::string r = unhex(a.at(0)); guarded(o, [&] { Card other(r); bool x = *mine() == other, y = other == *mine(); o.str("val", x == y ? (x ? "T" : "F") : "?"); }); };
    return proto::run(argc, argv, h, [] { mine().reset(new Card); fresh() = true; }, describe_fits);
}
