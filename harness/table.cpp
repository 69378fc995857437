// Conformance driver for spec/Table.tla: binary and ASCII tables and their column views.
#include <algorithm>
#include <complex>
#include <memory>
#include <numeric>
#include <boost/variant.hpp>
#include <boost/astronomy/io/fits.hpp>
#include "proto.hpp"
#include "except.hpp"
#include "mem.hpp"

namespace io = boost::astronomy::io;
using proto::Args; using proto::Obs; using proto::unhex; using proto::jarr;
typedef io::basic_binary_table_extension<io::card_policy, io::binary_data_converter> Bin;
typedef io::basic_ascii_table<io::card_policy, io::ascii_converter> Asc;
typedef io::header<io::card_policy> Header;
typedef std::vector<std::string> Val;                                // the elements of a value

// ---- what the table is read from and written to
static Header header_of(std::string const& cards) { Mem src(cards); Header h; h.read_header(src); return h; }

struct Slot { std::unique_ptr<Bin> b; std::unique_ptr<Asc> a; };
static proto::Per<std::map<int, Slot>> slots_;
static std::map<int, Slot>& slots() { return slots_.own(); }
struct View { std::function<void(Obs&, int)> get; std::function<void(Obs&, int, Val const&, std::string const&)> edit; };
static proto::Per<std::map<int, View>> views_;
static std::map<int, View>& views() { return views_.own(); }

// ---- values
static std::string bytes_json(std::string const& s) {
    std::vector<std::string> p;
    for (unsigned char c : s) p.push_back(std::to_string((int)c));
    return jarr(p);
}
static std::string enc(bool v) { return v ? "T" : "F"; }
static std::string enc(char v) { return std::string(1, v); }
static std::string enc(std::uint8_t v) { return std::string(1, (char)v); }
static std::string enc(std::int16_t v) { return proto::be(v); }
static std::string enc(std::int32_t v) { return proto::be(v); }
static std::string enc(float v) { return proto::be(v); }
static std::string enc(double v) { return proto::be(v); }
template <typename T> static std::string enc(std::complex<T> v) { return proto::be(v.real()) + proto::be(v.imag()); }
static std::string enc(std::pair<std::int32_t, std::int32_t> v) { return proto::be(v.first) + proto::be(v.second); }

template <typename T> struct Dec;
template <> struct Dec<bool> { static bool of(std::string const& s) { return s.at(0) == 'T'; } };
template <> struct Dec<char> { static char of(std::string const& s) { return s.at(0); } };
template <> struct Dec<std::uint8_t> { static std::uint8_t of(std::string const& s) { return (std::uint8_t)s.at(0); } };
template <> struct Dec<std::int16_t> { static std::int16_t of(std::string const& s) { return proto::i16(s); } };
template <> struct Dec<std::int32_t> { static std::int32_t of(std::string const& s) { return proto::i32(s); } };
template <> struct Dec<float> { static float of(std::string const& s) { return proto::f32(s); } };
template <> struct Dec<double> { static double of(std::string const& s) { return proto::f64(s); } };
template <> struct Dec<std::complex<float>> { static std::complex<float> of(std::string const& s) { return std::complex<float>(proto::f32(s), proto::f32(s, 4)); } };
template <> struct Dec<std::complex<double>> { static std::complex<double> of(std::string const& s) { return std::complex<double>(proto::f64(s), proto::f64(s, 8)); } };
template <> struct Dec<std::pair<std::int32_t, std::int32_t>> { static std::pair<std::int32_t, std::int32_t> of(std::string const& s) { return std::make_pair(proto::i32(s), proto::i32(s, 4)); } };

template <typename T> struct Cell {                                  // one element
    static std::string json(T const& v) { return "[" + bytes_json(enc(v)) + "]"; }
    static T of(Val const& v) { return Dec<T>::of(v.at(0)); }
};
template <typename T> struct Cell<std::vector<T>> {
    static std::string json(std::vector<T> const& v) { std::vector<std::string> p; for (auto x : v) p.push_back(bytes_json(enc((T)x))); return jarr(p); }
    static std::vector<T> of(Val const& v) { std::vector<T> r; for (auto& x : v) r.push_back(Dec<T>::of(x)); return r; }
};
template <typename T> struct Text;
template <> struct Text<std::string> { static std::string json(std::string const& v) { return Obs::q(v); } static std::string of(Val const& v) { return v.at(0); } };
template <> struct Text<long long> { static std::string json(long long v) { return Obs::q(std::to_string(v)); } static long long of(Val const& v) { return std::stoll(v.at(0)); } };
template <> struct Text<float> { static std::string json(float v) { return Obs::q(Obs::d17(v)); } static float of(Val const& v) { return std::stof(v.at(0)); } };
template <> struct Text<double> { static std::string json(double v) { return Obs::q(Obs::d17(v)); } static double of(Val const& v) { return std::stod(v.at(0)); } };

template <typename T> struct Tag { typedef T type; };
template <typename F> static void with_type(std::string const& t, F f) {
    bool v = t[0] == 'v';
    char c = t[v ? 1 : 0];
#define ONE(ch, T) if (c == ch) { if (v) f(Tag<std::vector<T>>()); else f(Tag<T>()); return; }
    ONE('L', bool) ONE('X', std::uint8_t) ONE('B', std::uint8_t) ONE('I', std::int16_t) ONE('J', std::int32_t) ONE('A', char) ONE('E', float) ONE('D', double)
    ONE('C', std::complex<float>) ONE('M', std::complex<double>)
    if (c == 'P') { typedef std::pair<std::int32_t, std::int32_t> P; if (v) f(Tag<std::vector<P>>()); else f(Tag<P>()); return; }
#undef ONE
    std::exit(97);
}
template <typename F> static void with_ascii(std::string const& t, F f) {
    if (t == "str") f(Tag<std::string>());
    else if (t == "ll") f(Tag<long long>());
    else if (t == "flt") f(Tag<float>());
    else if (t == "dbl") f(Tag<double>());
    else std::exit(97);
}

// Calls f(view, codec) with the view of a column as the type named
template <typename F> static void with_column(int t, std::string const& col, std::string const& ty, F f) {
    Slot& s = slots().at(t);
    if (s.b) with_type(ty, [&](auto tag) { typedef typename decltype(tag)::type T; f(s.b->template get_column<T>(col), Tag<Cell<T>>(), tag); });
    else with_ascii(ty, [&](auto tag) { typedef typename decltype(tag)::type T; f(s.a->template get_column<T>(col), Tag<Text<T>>(), tag); });
}
// An element that was assigned to has the value it was assigned, and so has the assignment.
template <typename C, typename E, typename T> static bool took(E&& e, T const& v) { T r = (e = v); T x = e; return C::json(x) == C::json(v) && C::json(r) == C::json(v); }
template <typename C, typename V, typename T> static void put(Obs& o, V& view, int row, T v, std::string const& how) {
    bool kept = true;
    if (how == "update") view.update_value(row, v);
    else if (how == "proxy") kept = took<C>(view[row], v);
    else if (how == "iter") { auto it = view.begin(); for (int i = 0; i < row; i++) ++it; kept = took<C>(*it, v); }
    else if (how == "late") {                                          // through an element taken before the cell was changed again
        T old = T(); bool known = true;
        try { T x = view[row]; old = x; } catch (...) { known = false; }
        view[row] = v;
        auto e = view[row];
        if (known) try { view[row] = old; } catch (...) {}
        kept = took<C>(e, v);
    }
    else if (how == "elem") {                                          // from an element of another table's column
        std::vector<std::vector<std::string>> aside(1, std::vector<std::string>(view.get_column_number()));
        V from(static_cast<io::column const&>(view), &aside);
        from.update_value(0, v);
        auto e = view[row];
        e = from[0];
        T x = e;
        kept = C::json(x) == C::json(T(from[0]));
    }
    else std::exit(97);
    o.boolean("kept", kept);
}
static std::vector<std::vector<std::string>>& cells(int t) { Slot& s = slots().at(t); return s.b ? s.b->get_data() : s.a->get_data(); }
static std::string cells_json(int t) {
    bool bin = !!slots().at(t).b;
    std::vector<std::string> rs;
    for (auto& r : cells(t)) { std::vector<std::string> cs; for (auto& c : r) cs.push_back(bin ? bytes_json(c) : Obs::q(c)); rs.push_back(jarr(cs)); }
    return jarr(rs);
}
static void see_all(Obs& o) {
    std::vector<std::string> p;
    for (int k = 0; k < 2; k++) p.push_back(slots().count(k) && (slots()[k].b || slots()[k].a) ? cells_json(k) : "[]");
    o.raw("all", jarr(p));
}
static std::string data_arg(std::string const& a) { return unhex(a); }
static int num(std::string const& s) { return std::stoi(s); }
static Val vals(Args const& a, std::size_t at) { Val v; for (std::size_t i = at; i < a.size(); i++) v.push_back(unhex(a[i])); return v; }
static std::size_t width_of(int t) { Slot& s = slots().at(t); return s.b ? s.b->get_header().naxis(1) : s.a->get_header().naxis(1); }
static std::string written(int t, std::size_t& head) {
    Slot& s = slots().at(t);
    Mem h, w;
    Header hd = s.b ? s.b->get_header() : s.a->get_header();
    hd.write_header(h);
    head = h.s.size();
    if (s.b) s.b->write_to(w); else s.a->write_to(w);
    return w.s;
}

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["make"] = [](Args const& a, Obs&) {                              // make slot kind data cards
        std::string data = data_arg(a.at(2)), cards = unhex(a.at(3));
        Header hd = header_of(cards);
        Slot n;
        if (a.at(1) == "binary") n.b.reset(new Bin(hd, data)); else n.a.reset(new Asc(hd, data));
        slots()[num(a.at(0))] = std::move(n);
    };
    h["set"] = [](Args const& a, Obs& o) { Slot& s = slots().at(num(a.at(0))); std::string d = data_arg(a.at(1)); if (s.b) s.b->set_data(d); else s.a->set_data(d); see_all(o); };
    h["copy"] = [](Args const& a, Obs& o) {
        Slot& s = slots().at(num(a.at(0)));
        Slot n;
        if (s.b) n.b.reset(new Bin(*s.b)); else n.a.reset(new Asc(*s.a));
        slots()[num(a.at(1))] = std::move(n);
        see_all(o);
    };
    h["assign"] = [](Args const& a, Obs& o) {
        Slot& s = slots().at(num(a.at(0))); Slot& d = slots()[num(a.at(1))];
        if (s.b) { if (!d.b) d.b.reset(new Bin); *d.b = *s.b; } else { if (!d.a) d.a.reset(new Asc); *d.a = *s.a; }
        see_all(o);
    };
    h["get"] = [](Args const& a, Obs& o) {                             // get slot col type row
        with_column(num(a.at(0)), unhex(a.at(1)), a.at(2), [&](auto& v, auto codec, auto tag) {
            typename decltype(tag)::type x = v[num(a.at(3))];
            o.raw("val", decltype(codec)::type::json(x));
        });
    };
    h["scan"] = [](Args const& a, Obs& o) {
        with_column(num(a.at(0)), unhex(a.at(1)), a.at(2), [&](auto& v, auto codec, auto tag) {
            std::vector<std::string> p;
            for (auto it = v.begin(); it != v.end(); ++it) { typename decltype(tag)::type x = *it; p.push_back(decltype(codec)::type::json(x)); }
            o.raw("vals", jarr(p)); o.num("rows", (long long)v.get_row_count()); o.num("column", v.get_column_number());
        });
    };
    h["edit"] = [](Args const& a, Obs& o) {                            // edit slot col type row how value...
        Val x = vals(a, 5);
        with_column(num(a.at(0)), unhex(a.at(1)), a.at(2), [&](auto& v, auto codec, auto tag) { put<typename decltype(codec)::type>(o, v, num(a.at(3)), decltype(codec)::type::of(x), a.at(4)); });
        see_all(o);
    };
    h["hold"] = [](Args const& a, Obs& o) {                            // hold h slot col type own
        int k = num(a.at(0));
        bool own = a.at(4) == "own";
        with_column(num(a.at(1)), unhex(a.at(2)), a.at(3), [&](auto& v, auto codec, auto tag) {
            typedef typename std::remove_reference<decltype(v)>::type V;
            typedef typename decltype(tag)::type T; typedef typename decltype(codec)::type C;
            std::shared_ptr<V> keep(own ? new V(v) : nullptr);
            V* p = own ? keep.get() : &v;
            views()[k].get = [keep, p](Obs& ob, int row) { T x = (*p)[row]; ob.raw("val", C::json(x)); };
            views()[k].edit = [keep, p](Obs& ob, int row, Val const& x, std::string const& how) { put<C>(ob, *p, row, C::of(x), how); };
            o.num("rows", (long long)p->get_row_count()); o.num("column", p->get_column_number());
        });
    };
    h["hget"] = [](Args const& a, Obs& o) { views().at(num(a.at(0))).get(o, num(a.at(1))); };
    h["hedit"] = [](Args const& a, Obs& o) { views().at(num(a.at(0))).edit(o, num(a.at(1)), vals(a, 3), a.at(2)); see_all(o); };
    h["poke"] = [](Args const& a, Obs& o) { std::string x; for (auto& e : vals(a, 3)) x += e; cells(num(a.at(0))).at(num(a.at(2))).at(num(a.at(1)) - 1) = x; see_all(o); };
    h["raw"] = [](Args const& a, Obs& o) { o.raw("cells", cells_json(num(a.at(0)))); };
    h["write"] = [](Args const& a, Obs& o) {
        int t = num(a.at(0));
        std::size_t head = 0, n = cells(t).size(), w = width_of(t);
        std::string all = written(t, head), body = all.substr(std::min(head, all.size()));
        if (slots().at(t).b) o.raw("data", bytes_json(body.substr(0, n * w)));
        else { std::vector<std::string> p; for (std::size_t r = 0; r < n; r++) p.push_back(Obs::q(body.substr(std::min(body.size(), r * w), w))); o.raw("data", jarr(p)); }
        std::string fill = body.size() >= n * w ? body.substr(n * w) : std::string("?");
        o.str("fill", body.size() % 2880 ? "unaligned" : fill.find_first_not_of(' ') == std::string::npos ? "blank" : "other");
        o.num("blocks", (long long)(body.size() / 2880));
    };
    h["reload"] = [](Args const& a, Obs& o) {
        int t = num(a.at(0));
        std::size_t head = 0;
        std::string all = written(t, head);
        Header hd = header_of(all);
        std::string body = all.substr(head, cells(t).size() * width_of(t));
        Slot n;
        if (slots().at(t).b) n.b.reset(new Bin(hd, body)); else n.a.reset(new Asc(hd, body));
        slots()[num(a.at(1))] = std::move(n);
        see_all(o);
    };
    h["meta"] = [](Args const& a, Obs& o) {
        Slot& s = slots().at(num(a.at(0)));
        io::column c = s.b ? s.b->get_column_metadata(unhex(a.at(1))) : s.a->get_column_metadata(unhex(a.at(1)));
        Obs m;
        m.num("index", (long long)c.index()); m.str("form", c.TFORM()); m.str("name", c.TTYPE()); m.str("unit", c.TUNIT()); m.dbl("scal", c.TSCAL()); m.dbl("zero", c.TZERO());
        m.num("start", (long long)c.TBCOL()); m.str("disp", c.TDISP()); m.str("dim", c.TDIM()); m.num("elements", (long long)c.total_elements());
        o.raw("meta", "{" + m.s + "}");
    };
    h["form"] = [](Args const& a, Obs& o) {
        std::string f = unhex(a.at(1));
        if (a.at(0) == "ascii") { o.num("size", (long long)Asc::column_size(f)); o.str("type", std::string(1, Asc::get_type(f))); }
        else { o.num("size", (long long)Bin::column_size(f)); o.num("count", (long long)Bin::element_count(f)); o.str("type", std::string(1, Bin::get_type(f))); }
    };
    return proto::run(argc, argv, h, [] { views().clear(); slots().clear(); }, describe_fits);
}
