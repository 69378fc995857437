// Conformance driver for spec/File.tla: files on disk, fits_io readers, headers.
#include <algorithm>
#include <memory>
#include <sys/stat.h>
#include <boost/astronomy/io/fits.hpp>
#include "proto.hpp"
#include "except.hpp"

namespace io = boost::astronomy::io;
using proto::Args; using proto::Obs; using proto::unhex; using proto::jarr;
typedef decltype(io::fits::open(std::string())) Reader;
typedef io::header<io::card_policy> Header;

static proto::Per<std::map<int, std::unique_ptr<Reader>>> readers_;
static std::map<int, std::unique_ptr<Reader>>& readers() { return readers_.own(); }

static std::string fnv(std::string const& s) {
    unsigned long long h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    char b[40];
    std::snprintf(b, sizeof b, "\"%zu:%016llx\"", s.size(), h);
    return b;
}

// A file from its segments: c<hex> a card padded to 80, r<byte>:<n> a run, b<a>:<b>:<n> bytes (a*i+b)%256, t<a>:<b>:<n> text 33+(a*i+b)%90
static std::string expand(Args const& a, std::size_t at) {
    std::string out;
    for (std::size_t k = at; k < a.size(); k++) {
        std::string s = a[k];
        unsigned x = 0, y = 0, n = 0;
        if (s[0] == 'c') { std::string c = unhex("x" + s.substr(1)); c.resize(80, ' '); out += c; }
        else if (s[0] == 'r') { if (std::sscanf(s.c_str(), "r%u:%u", &x, &n) != 2) std::exit(97); out.append(n, (char)x); }
        else if (s[0] == 'b' || s[0] == 't') {
            if (std::sscanf(s.c_str() + 1, "%u:%u:%u", &x, &y, &n) != 3) std::exit(97);
            for (unsigned i = 0; i < n; i++) out += (char)(s[0] == 'b' ? (x * i + y) % 256 : 33 + (x * i + y) % 90);
        }
        else std::exit(97);
    }
    return out;
}
static std::string slurp(std::string const& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    return ss.str();
}

static std::string bp(io::bitpix b) {
    switch (b) { case io::bitpix::B8: return "8"; case io::bitpix::B16: return "16"; case io::bitpix::B32: return "32"; case io::bitpix::_B32: return "-32"; case io::bitpix::_B64: return "-64"; }
    return "?";
}
static void head(Obs& o, Header h) {
    o.str("name", h.get_hdu_name());
    o.str("bitpix", bp(h.bitpix()));
    std::vector<std::string> ax;
    for (auto n : h.all_naxis()) ax.push_back(std::to_string(n));
    o.raw("axes", jarr(ax));
    o.num("dims", (long long)h.total_dimensions());
    o.num("elements", (long long)h.data_size());
    o.num("cards", (long long)h.card_count());
}
template <io::bitpix B> static std::string img(io::primary_hdu const& p) { auto i = p.get_data<B>(); return i.write_image(); }
struct Shower : boost::static_visitor<std::string> {
    std::string operator()(boost::blank) const { Obs o; o.str("kind", "blank"); return "{" + o.s + "}"; }
    std::string operator()(io::primary_hdu& p) const {
        Obs o; o.str("kind", "primary"); head(o, p.get_header());
        std::string d;
        switch (p.get_header().bitpix()) {
        case io::bitpix::B8: d = img<io::bitpix::B8>(p); break;
        case io::bitpix::B16: d = img<io::bitpix::B16>(p); break;
        case io::bitpix::B32: d = img<io::bitpix::B32>(p); break;
        case io::bitpix::_B32: d = img<io::bitpix::_B32>(p); break;
        case io::bitpix::_B64: d = img<io::bitpix::_B64>(p); break;
        }
        o.boolean("simple", p.is_simple()); o.boolean("extend", p.is_extended());
        o.raw("data", fnv(d));
        return "{" + o.s + "}";
    }
    template <typename T> std::string table(char const* kind, T& t) const {
        Obs o; o.str("kind", kind); head(o, t.get_header());
        std::string d;
        for (auto const& row : t.get_data()) for (auto const& cell : row) d += cell;
        o.raw("data", fnv(d));
        return "{" + o.s + "}";
    }
    std::string operator()(io::binary_table& t) const { return table("binary", t); }
    std::string operator()(io::ascii_table& t) const { return table("ascii", t); }
    template <typename T> std::string operator()(T&) const { Obs o; o.str("kind", "other"); return "{" + o.s + "}"; }
};
static std::string shown(decltype(std::declval<Reader>()[0]) e) { Shower s; return boost::apply_visitor(s, e); }

struct GetHeader : boost::static_visitor<Header> {
    Header operator()(boost::blank) const { std::fprintf(stderr, "no header\n"); throw std::logic_error("no header"); }
    template <typename T> Header operator()(T& t) const { return t.get_header(); }
};
static Header hdr(int r, int i) { GetHeader g; return boost::apply_visitor(g, (*readers().at(r))[i]); }

template <typename V, typename T> static void put(V& view, std::string const& how, int row, T v) {
    if (how == "update") view.update_value(row, v);
    else if (how == "proxy") view[row] = v;
    else if (how == "iter") { auto it = view.begin(); for (int k = 0; k < row; k++) ++it; *it = v; }
    else std::exit(97);
}
template <typename E> static void edit(E& e, std::string const& kind, std::string const& how, int row, bool first, std::string const& v) {
    if (kind == "ascii") put(io::fits::convert_to<io::ascii_table>(e).template get_column<std::string>(first ? "C1" : "C2"), how, row, v);
    else if (first) put(io::fits::convert_to<io::binary_table>(e).template get_column<std::uint8_t>("FIRST"), how, row, (std::uint8_t)v[0]);
    else put(io::fits::convert_to<io::binary_table>(e).template get_column<std::vector<std::uint8_t>>("REST"), how, row, std::vector<std::uint8_t>(v.begin(), v.end()));
}

static proto::Per<std::map<int, Header>> heads_;
static std::map<int, Header>& heads() { return heads_.own(); }
static void value(Obs& o, Header& x, std::string const& k, std::string const& t) {
    if (t == "str") o.str("val", x.value_of<std::string>(k));
    else if (t == "int") o.str("val", std::to_string(x.value_of<int>(k)));
    else if (t == "size") o.str("val", std::to_string(x.value_of<std::size_t>(k)));
    else if (t == "bool") o.str("val", x.value_of<bool>(k) ? "T" : "F");
    else if (t == "dbl") o.dbl("val", x.value_of<double>(k));
    else std::exit(97);
}

static void show(Obs& o, Reader& r) {
    auto list = r.get_hdu_list();
    o.num("n", (long long)list.size());
    std::vector<std::string> hs;
    for (std::size_t i = 0; i < list.size(); i++) hs.push_back(shown(r[(int)i]));
    o.raw("hdus", jarr(hs));
    auto cb = r.get_control_block_info();
    std::vector<std::pair<std::size_t, std::string>> es;
    for (auto const& e : cb.hdus_info) {
        Obs x; x.str("name", e.first); x.num("header", (long long)e.second.header_location); x.num("data", (long long)e.second.data_location); x.num("index", (long long)e.second.hdu_index);
        es.push_back(std::make_pair(e.second.header_location, "{" + x.s + "}"));
    }
    std::sort(es.begin(), es.end());
    std::vector<std::string> l;
    for (auto const& e : es) l.push_back(e.second);
    o.raw("list", jarr(l));
    o.num("total", (long long)cb.total_hdus());
    o.str("path", cb.filepath);
}

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["file"] = [](Args const& a, Obs& o) {                     // file slot cut segments...
        std::string s = expand(a, 2);
        long cut = std::atol(a.at(1).c_str());
        if (cut >= 0) s.resize((std::size_t)cut);
        std::ofstream f(a.at(0), std::ios::binary | std::ios::trunc);
        f.write(s.data(), (std::streamsize)s.size());
        o.num("size", (long long)s.size());
    };
    h["open"] = [](Args const& a, Obs& o) {                     // open r slot all|headers new|re
        int r = std::atoi(a.at(0).c_str());
        if (a.at(3) == "new") {
            auto opt = a.at(2) == "all" ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers;
            std::unique_ptr<Reader> n(new Reader(a.at(2) == "all" ? io::fits::open(a.at(1)) : io::fits::open(a.at(1), opt)));
            readers()[r].swap(n);
        } else {
            if (!readers()[r]) readers()[r].reset(new Reader);
            readers()[r]->initialize(a.at(1));
            if (a.at(2) == "all") readers()[r]->read_entire_hdus(); else readers()[r]->read_only_headers();
        }
        show(o, *readers().at(r));
    };
    h["show"] = [](Args const& a, Obs& o) { show(o, *readers().at(std::atoi(a.at(0).c_str()))); };
    h["write"] = [](Args const& a, Obs&) { readers().at(std::atoi(a.at(0).c_str()))->write_to(a.at(1)); };
    h["bytes"] = [](Args const& a, Obs& o) {                    // bytes slot off:len...
        std::string s = slurp(a.at(0));
        o.num("size", (long long)s.size());
        std::vector<std::string> p;
        for (std::size_t k = 1; k < a.size(); k++) {
            unsigned long off = 0, len = 0;
            std::sscanf(a[k].c_str(), "%lu:%lu", &off, &len);
            p.push_back(fnv(off > s.size() ? std::string() : s.substr(off, len)));
        }
        o.raw("parts", jarr(p));
    };
    h["val"] = [](Args const& a, Obs& o) {                      // val r i key type
        Header x = hdr(std::atoi(a.at(0).c_str()), std::atoi(a.at(1).c_str()));
        value(o, x, unhex(a.at(2)), a.at(3));
    };
    h["has"] = [](Args const& a, Obs& o) { o.boolean("val", hdr(std::atoi(a.at(0).c_str()), std::atoi(a.at(1).c_str())).contains_keyword(unhex(a.at(2)))); };
    h["axis"] = [](Args const& a, Obs& o) { o.num("val", (long long)hdr(std::atoi(a.at(0).c_str()), std::atoi(a.at(1).c_str())).naxis((std::size_t)std::atol(a.at(2).c_str()))); };
    h["at"] = [](Args const& a, Obs& o) { o.raw("hdu", shown((*readers().at(std::atoi(a.at(0).c_str())))[std::atoi(a.at(1).c_str())])); };
    h["named"] = [](Args const& a, Obs& o) { o.raw("hdu", shown((*readers().at(std::atoi(a.at(0).c_str())))[unhex(a.at(1))])); };
    h["as"] = [](Args const& a, Obs& o) {                       // as r i kind
        auto& e = (*readers().at(std::atoi(a.at(0).c_str())))[std::atoi(a.at(1).c_str())]; Shower s;
        std::string const& k = a.at(2);
        o.raw("hdu", k == "primary" ? s(io::fits::convert_to<io::primary_hdu>(e)) : k == "binary" ? s(io::fits::convert_to<io::binary_table>(e))
                   : s(io::fits::convert_to<io::ascii_table>(e)));
    };
    h["edit"] = [](Args const& a, Obs&) {                       // edit r i kind how row col bytes
        Reader& r = *readers().at(std::atoi(a.at(0).c_str())); int i = std::atoi(a.at(1).c_str()), row = std::atoi(a.at(4).c_str());
        std::string const& k = a.at(2); std::string const& how = a.at(3); std::string v = unhex(a.at(6));
        bool first = a.at(5) == "1";
        if (how == "copy") { auto l = r.get_hdu_list(); edit(l.at(i), k, "proxy", row, first, v); }
        else if (how == "named") edit(r[k == "ascii" ? "TABLE" : "BINTABLE"], k, "proxy", row, first, v);
        else edit(r[i], k, how, row, first, v);
    };
    h["refill"] = [](Args const& a, Obs&) {                     // refill r i kind segment
        auto& e = (*readers().at(std::atoi(a.at(0).c_str())))[std::atoi(a.at(1).c_str())]; std::string d = expand(a, 3);
        if (a.at(2) == "ascii") io::fits::convert_to<io::ascii_table>(e).set_data(d); else io::fits::convert_to<io::binary_table>(e).set_data(d);
    };
    h["same"] = [](Args const& a, Obs& o) {
        Header x = hdr(std::atoi(a.at(0).c_str()), std::atoi(a.at(1).c_str())), y = hdr(std::atoi(a.at(2).c_str()), std::atoi(a.at(3).c_str()));
        bool p = x == y, q = y == x;
        if (p != q) o.str("val", "asymmetric"); else o.boolean("val", p);
    };
    // ---- header objects by themselves
    h["hread"] = [](Args const& a, Obs&) {                      // hread h segments: what a file starts with
        { std::ofstream f("h", std::ios::binary | std::ios::trunc); f << expand(a, 1); }
        io::fits_stream in; in.set_file("h");
        heads()[std::atoi(a.at(0).c_str())].read_header(in);
    };
    h["hcopy"] = [](Args const& a, Obs&) { heads()[std::atoi(a.at(0).c_str())] = heads().at(std::atoi(a.at(1).c_str())); };
    h["hshow"] = [](Args const& a, Obs& o) {
        Header& x = heads().at(std::atoi(a.at(0).c_str()));
        o.str("bitpix", bp(x.bitpix()));
        std::vector<std::string> ax; for (auto n : x.all_naxis()) ax.push_back("\"" + std::to_string(n) + "\"");
        o.raw("axes", jarr(ax)); o.num("dims", (long long)x.total_dimensions()); o.str("elements", std::to_string(x.data_size())); o.num("cards", (long long)x.card_count());
    };
    h["hname"] = [](Args const& a, Obs& o) { o.str("val", heads().at(std::atoi(a.at(0).c_str())).get_hdu_name()); };
    h["hval"] = [](Args const& a, Obs& o) { value(o, heads().at(std::atoi(a.at(0).c_str())), unhex(a.at(1)), a.at(2)); };
    h["hhas"] = [](Args const& a, Obs& o) { o.boolean("val", heads().at(std::atoi(a.at(0).c_str())).contains_keyword(unhex(a.at(1)))); };
    h["haxis"] = [](Args const& a, Obs& o) { o.str("val", std::to_string(heads().at(std::atoi(a.at(0).c_str())).naxis((std::size_t)std::atol(a.at(1).c_str())))); };
    h["hsame"] = [](Args const& a, Obs& o) {
        Header &x = heads().at(std::atoi(a.at(0).c_str())), &y = heads().at(std::atoi(a.at(1).c_str()));
        bool p = x == y, q = y == x;
        if (p != q) o.str("val", "asymmetric"); else o.boolean("val", p);
    };
    h["hout"] = [](Args const& a, Obs& o) {
        { io::fits_stream f; f.create_file("h"); heads().at(std::atoi(a.at(0).c_str())).write_header(f); f.close(); }
        std::string s = slurp("h");
        std::size_t end = s.find_last_not_of(' '), n = end == std::string::npos ? 0 : (end + 80) / 80 * 80;
        std::vector<std::string> cs; for (std::size_t i = 0; i < n; i += 80) { Obs c; c.str("c", s.substr(i, 80)); cs.push_back(c.s.substr(c.s.find(':') + 1)); }
        o.raw("cards", jarr(cs)); o.num("pad", (long long)(s.size() - n));
    };
    return proto::run(argc, argv, h, [] { readers().clear(); heads().clear(); for (char const* p : {"a", "b", "c", "w", "h"}) std::remove(p); }, describe_fits);
}
