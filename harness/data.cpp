// Conformance driver for spec/Codec.tla and spec/Stream.tla: the converters, images, fits_stream.
#include <algorithm>
#include <complex>
#include <functional>
#include <memory>
#include <numeric>
#include <valarray>
#include <boost/variant.hpp>
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/io/image_extension.hpp>
#include "proto.hpp"
#include "except.hpp"
#include "mem.hpp"

namespace io = boost::astronomy::io;
using proto::Args; using proto::Obs; using proto::unhex; using proto::jarr;
typedef io::binary_data_converter Conv;
typedef io::header<io::card_policy> Header;
typedef std::vector<std::string> Val;

static std::string bytes_json(std::string const& s) { std::vector<std::string> p; for (unsigned char c : s) p.push_back(std::to_string((int)c)); return jarr(p); }
static std::string js(bool v) { return v ? "\"T\"" : "\"F\""; }
static std::string js(char v) { return "\"" + std::to_string((int)(unsigned char)v) + "\""; }
static std::string js(std::uint8_t v) { return "\"" + std::to_string((int)v) + "\""; }
static std::string js(std::int16_t v) { return "\"" + std::to_string((int)v) + "\""; }
static std::string js(std::int32_t v) { return "\"" + std::to_string(v) + "\""; }
static std::string js(float v) { return "\"" + Obs::d17(v) + "\""; }
static std::string js(double v) { return "\"" + Obs::d17(v) + "\""; }

template <typename T> struct Of { static T of(std::string const& s) { return (T)std::stoll(s); } };
template <> struct Of<bool> { static bool of(std::string const& s) { return s == "T"; } };
template <> struct Of<float> { static float of(std::string const& s) { return std::strtof(s.c_str(), nullptr); } };
template <> struct Of<double> { static double of(std::string const& s) { return std::strtod(s.c_str(), nullptr); } };
template <typename T> struct Tag { typedef T type; };
template <typename F> static void with(std::string const& t, F f) {
    if (t == "bool") f(Tag<bool>()); else if (t == "chr") f(Tag<char>()); else if (t == "u8") f(Tag<std::uint8_t>()); else if (t == "i16") f(Tag<std::int16_t>());
    else if (t == "i32") f(Tag<std::int32_t>()); else if (t == "f32") f(Tag<float>()); else if (t == "f64") f(Tag<double>()); else std::exit(97);
}
template <typename F> static void with_float(std::string const& t, F f) { if (t == "f32") f(Tag<float>()); else if (t == "f64") f(Tag<double>()); else std::exit(97); }
static Val vals(Args const& a, std::size_t at) { Val v; for (std::size_t i = at; i < a.size(); i++) v.push_back(unhex(a[i])); return v; }
template <typename T> static void out_vec(Obs& o, std::vector<T> const& v) { std::vector<std::string> p; for (auto x : v) p.push_back(js((T)x)); o.raw("vals", jarr(p)); }

// ---- images
static std::string pad(std::string s) { s.resize(80, ' '); return s; }
static Header header_of(bool primary, std::string const& bp, std::vector<std::string> const& axes, std::string const& simple, std::string const& extend) {
    std::string c = primary ? pad("SIMPLE  =                    " + simple) : pad("XTENSION= 'IMAGE   '");
    c += pad("BITPIX  = " + bp) + pad("NAXIS   = " + std::to_string(axes.size()));
    for (std::size_t i = 0; i < axes.size(); i++) { std::string k = "NAXIS" + std::to_string(i + 1); k.resize(8, ' '); c += pad(k + "= " + axes[i]); }
    if (primary) { if (!extend.empty()) c += pad("EXTEND  = " + extend); } else c += pad("PCOUNT  = 0") + pad("GCOUNT  = 1");
    Mem src(c + pad("END"));
    Header h; h.read_header(src); return h;
}
struct Image { virtual ~Image() {} virtual void pix(Obs&, std::size_t, std::size_t) = 0; virtual void stat(Obs&) = 0; virtual bool none() = 0; virtual std::string out() = 0; virtual std::size_t size() = 0; virtual Image* clone() = 0; };
template <io::bitpix B> struct ImageOf : Image {
    io::image<B, Conv> im;
    ImageOf(io::image<B, Conv> const& i) : im(i) {}
    void pix(Obs& o, std::size_t x, std::size_t y) { o.raw("val", js(im(x, y))); }
    void stat(Obs& o) { o.raw("max", js(im.max())); o.raw("min", js(im.min())); o.dbl("mean", im.mean()); o.raw("median", js(im.median())); o.dbl("sd", im.std_dev()); }
    bool none() { return im.max() == 0 && im.min() == 0 && im.median() == 0 && im.mean() == 0 && im.std_dev() == 0; }
    std::string out() { return im.write_image(); }
    std::size_t size() { return im.size(); }
    Image* clone() { return new ImageOf<B>(im); }
};
static proto::Per<std::unique_ptr<Image>> image_of_;
static std::unique_ptr<Image>& image_of() { return image_of_.own(); }
static proto::Per<std::function<void(io::fits_stream&)>> hdu_out_;
static std::function<void(io::fits_stream&)>& hdu_out() { return hdu_out_.own(); }
static proto::Per<std::function<void(std::string const&)>> hdu_as_;
static std::function<void(std::string const&)>& hdu_as() { return hdu_as_.own(); }
template <typename Hdu> static Image* of_hdu(Hdu const& h, std::string const& bp);
template <typename Hdu> static void keep(Hdu const& h) { hdu_as() = [h](std::string const& bp) { std::unique_ptr<Image> i(of_hdu(h, bp)); }; hdu_out() = [h](io::fits_stream& f) { Hdu c(h); c.write_to(f); }; }
template <typename Hdu> static Image* of_hdu(Hdu const& h, std::string const& bp) {
    if (bp == "8") return new ImageOf<io::bitpix::B8>(h.template get_data<io::bitpix::B8>());
    if (bp == "16") return new ImageOf<io::bitpix::B16>(h.template get_data<io::bitpix::B16>());
    if (bp == "32") return new ImageOf<io::bitpix::B32>(h.template get_data<io::bitpix::B32>());
    if (bp == "-32") return new ImageOf<io::bitpix::_B32>(h.template get_data<io::bitpix::_B32>());
    if (bp == "-64") return new ImageOf<io::bitpix::_B64>(h.template get_data<io::bitpix::_B64>());
    std::exit(97);
}

// ---- stream
static proto::Per<std::unique_ptr<io::fits_stream>> stream_;
static std::unique_ptr<io::fits_stream>& stream() { return stream_.own(); }
static std::string runs(std::string const& s) {                      // [[byte, count], ...]
    std::vector<std::string> p;
    for (std::size_t i = 0; i < s.size();) { std::size_t j = i; while (j < s.size() && s[j] == s[i]) j++; p.push_back("[" + std::to_string((int)(unsigned char)s[i]) + "," + std::to_string(j - i) + "]"); i = j; }
    return jarr(p);
}
static std::string expand(Args const& a, std::size_t at) { std::string s; for (std::size_t i = at; i + 1 < a.size(); i += 2) s.append(std::stoul(a[i + 1]), (char)std::stoi(a[i])); return s; }
static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["enc"] = [](Args const& a, Obs& o) {                             // enc shape type value...
        std::string sh = a.at(0), t = a.at(1); Val v = vals(a, 2);
        if (sh == "s") with(t, [&](auto g) { typedef typename decltype(g)::type T; T x = Of<T>::of(v.at(0)); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "v") with(t, [&](auto g) { typedef typename decltype(g)::type T; std::vector<T> x; for (auto& e : v) x.push_back(Of<T>::of(e)); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "c") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; std::complex<T> x(Of<T>::of(v.at(0)), Of<T>::of(v.at(1))); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "vc") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; std::vector<std::complex<T>> x; for (std::size_t i = 0; i + 1 < v.size(); i += 2) x.emplace_back(Of<T>::of(v[i]), Of<T>::of(v[i + 1])); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "p") o.raw("bytes", bytes_json(Conv::serialize(std::make_pair(Of<std::int32_t>::of(v.at(0)), Of<std::int32_t>::of(v.at(1))))));
        else if (sh == "vp") { std::vector<std::pair<std::int32_t, std::int32_t>> x; for (std::size_t i = 0; i + 1 < v.size(); i += 2) x.emplace_back(Of<std::int32_t>::of(v[i]), Of<std::int32_t>::of(v[i + 1])); o.raw("bytes", bytes_json(Conv::serialize(x))); }
        else std::exit(97);
    };
    h["dec"] = [](Args const& a, Obs& o) {                             // dec shape type bytes count
        std::string sh = a.at(0), t = a.at(1), b = unhex(a.at(2)); int n = std::stoi(a.at(3));
        if (sh == "s") with(t, [&](auto g) { typedef typename decltype(g)::type T; T x = Conv::deserialize_to<T>(b, 1); out_vec(o, std::vector<T>(1, x)); });
        else if (sh == "v") with(t, [&](auto g) { typedef typename decltype(g)::type T; out_vec(o, Conv::deserialize_to<std::vector<T>>(b, n)); });
        else if (sh == "c") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; auto x = Conv::deserialize_to<std::complex<T>>(b, 1); out_vec(o, std::vector<T>{x.real(), x.imag()}); });
        else if (sh == "vc") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; std::vector<T> r; for (auto x : Conv::deserialize_to<std::vector<std::complex<T>>>(b, n / 2)) { r.push_back(x.real()); r.push_back(x.imag()); } out_vec(o, r); });
        else if (sh == "p") { auto x = Conv::deserialize_to<std::pair<std::int32_t, std::int32_t>>(b, 1); out_vec(o, std::vector<std::int32_t>{x.first, x.second}); }
        else if (sh == "vp") { std::vector<std::int32_t> r; for (auto x : Conv::deserialize_to<std::vector<std::pair<std::int32_t, std::int32_t>>>(b, n / 2)) { r.push_back(x.first); r.push_back(x.second); } out_vec(o, r); }
        else std::exit(97);
    };
    h["trip"] = [](Args const& a, Obs& o) {                            // decoded and encoded again
        std::string sh = a.at(0), t = a.at(1), b = unhex(a.at(2)); int n = std::stoi(a.at(3));
        if (sh == "s") with(t, [&](auto g) { typedef typename decltype(g)::type T; auto x = Conv::deserialize_to<T>(b, 1); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "v") with(t, [&](auto g) { typedef typename decltype(g)::type T; auto x = Conv::deserialize_to<std::vector<T>>(b, n); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "c") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; auto x = Conv::deserialize_to<std::complex<T>>(b, 1); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "vc") with_float(t, [&](auto g) { typedef typename decltype(g)::type T; auto x = Conv::deserialize_to<std::vector<std::complex<T>>>(b, n / 2); o.raw("bytes", bytes_json(Conv::serialize(x))); });
        else if (sh == "p") { auto x = Conv::deserialize_to<std::pair<std::int32_t, std::int32_t>>(b, 1); o.raw("bytes", bytes_json(Conv::serialize(x))); }
        else if (sh == "vp") { auto x = Conv::deserialize_to<std::vector<std::pair<std::int32_t, std::int32_t>>>(b, n / 2); o.raw("bytes", bytes_json(Conv::serialize(x))); }
        else std::exit(97);
    };
    h["aenc"] = [](Args const& a, Obs& o) {
        std::string t = a.at(0), v = unhex(a.at(1));
        typedef io::ascii_converter C;
        std::string s = t == "ll" ? C::serialize(std::stoll(v)) : t == "int" ? C::serialize((int)std::stol(v)) : t == "dbl" ? C::serialize(std::stod(v)) : t == "flt" ? C::serialize(std::stof(v)) : C::serialize(v);
        o.str("text", s);
        std::string back = t == "ll" ? std::to_string(C::deserialize_to<long long>(s, 0)) : t == "int" ? std::to_string(C::deserialize_to<int>(s, 0)) : t == "dbl" ? Obs::d17(C::deserialize_to<double>(s, 0)) : t == "flt" ? Obs::d17(C::deserialize_to<float>(s, 0)) : C::deserialize_to<std::string>(s, 0);
        o.str("back", back);
    };
    h["image"] = [](Args const& a, Obs& o) {                           // image via bitpix axes(comma) bytes
        std::vector<std::string> axes; std::stringstream ss(a.at(2)); std::string x; while (std::getline(ss, x, ',')) if (x != "-") axes.push_back(x);
        bool primary = a.at(0) == "primary";
        Header hd = header_of(primary, a.at(1), axes, "T", "");
        std::string b = unhex(a.at(3));
        if (primary) keep(io::basic_primary_hdu<io::card_policy, Conv>(hd, b)); else keep(io::basic_image_extension<io::card_policy, Conv>(hd, b));
        image_of().reset(primary ? of_hdu(io::basic_primary_hdu<io::card_policy, Conv>(hd, b), a.at(1)) : of_hdu(io::basic_image_extension<io::card_policy, Conv>(hd, b), a.at(1)));
        o.num("size", (long long)image_of()->size());
    };
    h["other"] = [](Args const& a, Obs&) { hdu_as()(a.at(0)); };          // other bitpix
    h["nostat"] = [](Args const&, Obs& o) { o.boolean("zero", image_of()->none()); };
    h["hduout"] = [](Args const&, Obs& o) {
        { io::fits_stream f; f.create_file("a"); hdu_out()(f); f.close(); }
        std::string all; { std::ifstream f("a", std::ios::binary); std::stringstream ss; ss << f.rdbuf(); all = ss.str(); }
        std::remove("a");
        std::size_t n = image_of()->out().size(), at = 2880;                // the headers made here are of one block
        o.raw("data", bytes_json(all.size() >= at ? all.substr(at, n) : std::string()));
        o.boolean("whole", all.size() == at + (n + 2879) / 2880 * 2880);
    };
    h["pix"] = [](Args const& a, Obs& o) { image_of()->pix(o, std::stoul(a.at(0)), std::stoul(a.at(1))); };
    h["stat"] = [](Args const&, Obs& o) { image_of()->stat(o); };
    h["minmax"] = h["stat"];
    h["out"] = [](Args const&, Obs& o) { o.raw("bytes", bytes_json(image_of()->out())); };
    h["copy"] = [](Args const&, Obs& o) { std::unique_ptr<Image> n(image_of()->clone()); image_of().swap(n); o.num("size", (long long)image_of()->size()); };
    h["flags"] = [](Args const& a, Obs& o) {
        io::basic_primary_hdu<io::card_policy, Conv> p(header_of(true, "8", std::vector<std::string>(), a.at(0), a.at(1) == "-" ? "" : a.at(1)), "");
        o.boolean("simple", p.is_simple()); o.boolean("extend", p.is_extended());
    };
    // ---- stream
    h["disk"] = [](Args const& a, Obs&) { std::ofstream f(a.at(0), std::ios::binary | std::ios::trunc); f << expand(a, 1); };
    h["set_file"] = [](Args const& a, Obs&) { stream()->set_file(a.at(0)); };
    h["create"] = [](Args const& a, Obs& o) { o.boolean("val", stream()->create_file(a.at(0))); };
    h["is_open"] = [](Args const&, Obs& o) { o.boolean("val", stream()->is_open()); };
    h["seek"] = [](Args const& a, Obs&) { stream()->set_reading_pos(std::stoul(a.at(0))); };
    h["getc"] = [](Args const&, Obs& o) { o.num("val", stream()->get()); };
    h["pos"] = [](Args const&, Obs& o) { o.num("val", (long long)stream()->get_current_pos()); };
    h["unit_end"] = [](Args const&, Obs& o) { o.num("val", (long long)stream()->find_unit_end()); };
    h["to_unit_end"] = [](Args const&, Obs&) { stream()->set_unit_end(); };
    h["read"] = [](Args const& a, Obs& o) { o.raw("val", runs(stream()->read(std::stoul(a.at(0))))); };
    h["write"] = [](Args const& a, Obs& o) { o.boolean("val", stream()->write(expand(a, 0))); };
    h["write_at"] = [](Args const& a, Obs& o) { o.boolean("val", stream()->write(expand(a, 1), std::stoul(a.at(0)))); };
    h["at_end"] = [](Args const&, Obs& o) { o.boolean("val", stream()->at_end()); };
    h["close"] = [](Args const&, Obs&) { stream()->close(); };
    h["bytes"] = [](Args const& a, Obs& o) { o.raw("val", runs(slurp(a.at(0)))); };
    h["new"] = [](Args const&, Obs&) { stream().reset(new io::fits_stream); };
    return proto::run(argc, argv, h, [] { image_of().reset(); stream().reset(new io::fits_stream); for (char c : std::string("abc")) std::remove(std::string(1, c).c_str()); }, describe_fits);
}
