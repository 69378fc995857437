// Conformance driver for spec/Vec.tla: differentials.
#include <boost/astronomy/coordinate/diff/differential.hpp>
#include "vec.hpp"
namespace bac = boost::astronomy::coordinate;
namespace bgm = boost::geometry;
typedef bun::si::velocity ms; typedef bun::cgs::velocity cms; typedef bun::degree::plane_angle deg_; typedef bun::si::plane_angle rad_;
typedef bun::make_scaled_unit<bun::si::velocity, bun::scale<10, bun::static_rational<3>>>::type kms;
template <typename U, typename T> using Q = bun::quantity<U, T>;
typedef bac::cartesian_differential<double, Q<ms, double>, Q<ms, double>, Q<ms, double>> Cm;
typedef bac::cartesian_differential<double, Q<ms, double>, Q<cms, double>, Q<kms, double>> Cx;
typedef bac::cartesian_differential<float, Q<ms, float>, Q<ms, float>, Q<ms, float>> Cf;
typedef bac::spherical_differential<double, Q<deg_, double>, Q<deg_, double>, Q<ms, double>> Sd;
typedef bac::spherical_differential<double, Q<rad_, double>, Q<deg_, double>, Q<kms, double>> Sx;
typedef bac::spherical_differential<float, Q<rad_, float>, Q<rad_, float>, Q<ms, float>> Sf;
typedef bac::spherical_equatorial_differential<double, Q<deg_, double>, Q<deg_, double>, Q<ms, double>> Ed;
typedef bac::spherical_equatorial_differential<double, Q<deg_, double>, Q<rad_, double>, Q<kms, double>> Ex;
typedef bac::spherical_equatorial_differential<float, Q<rad_, float>, Q<deg_, float>, Q<ms, float>> Ef;
typedef bac::spherical_coslat_differential<double, Q<deg_, double>, Q<deg_, double>, Q<ms, double>> Dd;
typedef bac::spherical_coslat_differential<double, Q<rad_, double>, Q<deg_, double>, Q<kms, double>> Dx;
typedef bac::spherical_coslat_differential<float, Q<rad_, float>, Q<rad_, float>, Q<ms, float>> Df;

template <typename R> struct K;
#define DIFFERENTIAL(KIND, NAME, ONE, TWO, THREE, ALL) \
template <typename T, typename... A> struct K<bac::NAME<T, A...>> { \
    static const char kind = KIND; \
    template <typename R> static auto get1(R const& r) { return r.get_##ONE(); } \
    template <typename R> static auto get2(R const& r) { return r.get_##TWO(); } \
    template <typename R> static auto get3(R const& r) { return r.get_##THREE(); } \
    template <typename R> static auto tuple(R const& r) { return r.get_##ALL(); } \
    template <typename R, typename X> static void set1(R& r, X const& x) { r.set_##ONE(x); } \
    template <typename R, typename X> static void set2(R& r, X const& x) { r.set_##TWO(x); } \
    template <typename R, typename X> static void set3(R& r, X const& x) { r.set_##THREE(x); } \
    template <typename R, typename X, typename Y, typename Z> static void set(R& r, X const& x, Y const& y, Z const& z) { r.set_##ALL(x, y, z); } \
    template <typename X, typename Y, typename Z> static auto make(X const& x, Y const& y, Z const& z) { return bac::make_##NAME(x, y, z); } \
    template <typename X> static auto make(X const& x) { return bac::make_##NAME(x); } \
    template <typename R, typename X> static auto units(X const& x) { return bac::make_##NAME<typename R::type, typename R::quantity1, typename R::quantity2, typename R::quantity3>(x); } \
};
DIFFERENTIAL('C', cartesian_differential, dx, dy, dz, dx_dy_dz)
DIFFERENTIAL('S', spherical_differential, dlat, dlon, ddist, dlat_dlon_ddist)
DIFFERENTIAL('E', spherical_equatorial_differential, dlat, dlon, ddist, dlat_dlon_ddist)
DIFFERENTIAL('D', spherical_coslat_differential, dlat, dlon_coslat, ddist, dlat_dlon_coslat_ddist)

template <typename R> V3 raw(R const& r) { return {(double)K<R>::get1(r).value(), (double)K<R>::get2(r).value(), (double)K<R>::get3(r).value()}; }
template <typename R> V3 sis(R const& r) { return {si(K<R>::get1(r)), si(K<R>::get2(r)), si(K<R>::get3(r))}; }
template <typename R> V3 where(R const& r) { return geo(K<R>::kind, sis(r)); }
template <typename R> typename R::quantity1 q1(double v) { return R::quantity1::from_value((typename R::type)v); }
template <typename R> typename R::quantity2 q2(double v) { return R::quantity2::from_value((typename R::type)v); }
template <typename R> typename R::quantity3 q3(double v) { return R::quantity3::from_value((typename R::type)v); }
template <typename R> R build(std::string const& how, V3 const& c) {
    if (how == "ctor") return R(q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    if (how == "make") return K<R>::make(q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    R r;
    if (how == "set") K<R>::set(r, q1<R>(c[0]), q2<R>(c[1]), q3<R>(c[2]));
    else if (how == "each") { K<R>::set3(r, q3<R>(c[2])); K<R>::set2(r, q2<R>(c[1])); K<R>::set1(r, q1<R>(c[0])); }
    else bad();
    return r;
}

template <typename... Ts> struct List {};
typedef List<Cm, Cx, Sd, Sx, Ed, Ex, Dd, Dx> Doubles;
typedef List<Cf, Sf, Ef, Df> Floats;
template <typename R> struct Group { typedef typename std::conditional<std::is_same<typename R::type, float>::value, Floats, Doubles>::type type; };
template <typename R> struct Name;
#define NAMED(T) template <> struct Name<T> { static char const* get() { return #T; } };
NAMED(Cm) NAMED(Cx) NAMED(Cf) NAMED(Sd) NAMED(Sx) NAMED(Sf) NAMED(Ed) NAMED(Ex) NAMED(Ef) NAMED(Dd) NAMED(Dx) NAMED(Df)

struct Dif {
    virtual ~Dif() {}
    virtual void put(int, double) = 0; virtual void putall(V3 const&) = 0; virtual void look(Obs&) const = 0;
    virtual std::unique_ptr<Dif> copy(std::string const&) const = 0; virtual std::unique_ptr<Dif> conv(std::string const&, std::string const&) const = 0;
    virtual std::unique_ptr<Dif> plus(Dif const&) const = 0; virtual void times(double, Obs&) const = 0; virtual bool eq(Dif const&) const = 0;
    virtual void mag(Obs&) const = 0; virtual void unit(std::string const&, Obs&) const = 0;
};
template <typename R> struct DifOf;
typedef std::unique_ptr<Dif> P;
template <typename To, typename From, bool same> struct Units { static To go(From const&) { bad(); } };
template <typename To, typename From> struct Units<To, From, true> { static To go(From const& f) { return K<To>::template units<To>(f); } };
template <typename From> P conv(From const&, std::string const&, std::string const&, List<>) { bad(); }
template <typename From, typename To, typename... Ts> P conv(From const& f, std::string const& t, std::string const& how, List<To, Ts...>) {
    if (t != Name<To>::get()) return conv(f, t, how, List<Ts...>());
    if (how == "ctor") return std::make_unique<DifOf<To>>(To(f));
    if (how == "make") return std::make_unique<DifOf<To>>(To(K<To>::make(f)));
    if (how == "units") return std::make_unique<DifOf<To>>(Units<To, From, K<To>::kind == K<From>::kind && !std::is_same<To, From>::value>::go(f));
    if (how == "to") return std::make_unique<DifOf<To>>(f.template to_differential<To>());
    bad();
}
template <typename A> P plus(A const&, Dif const&, List<>) { bad(); }
template <typename A, typename B, typename... Ts> P plus(A const& a, Dif const& b, List<B, Ts...>) {
    if (auto p = dynamic_cast<DifOf<B> const*>(&b)) return std::make_unique<DifOf<A>>(a + p->r);
    return plus(a, b, List<Ts...>());
}
template <typename A> void unit(A const&, std::string const&, Obs&, List<>) { bad(); }
template <typename A, typename To, typename... Ts> void unit(A const& a, std::string const& t, Obs& o, List<To, Ts...>) {
    if (t != Name<To>::get()) return unit(a, t, o, List<Ts...>());
    auto u = a.template unit_vector<To>(); V3 c = sis(u), n = raw(u);
    if (K<To>::kind == 'C') c = n; else c[2] = n[2];
    o.raw("unit", d3(geo(K<To>::kind, c)));
}
template <typename R> struct DifOf : Dif {
    R r;
    DifOf(R const& o) : r(o) {}
    void put(int k, double v) override { if (k == 1) K<R>::set1(r, q1<R>(v)); else if (k == 2) K<R>::set2(r, q2<R>(v)); else if (k == 3) K<R>::set3(r, q3<R>(v)); else bad(); }
    void putall(V3 const& v) override { K<R>::set(r, q1<R>(v[0]), q2<R>(v[1]), q3<R>(v[2])); }
    P copy(std::string const& how) const override {
        if (how == "copy") return std::make_unique<DifOf>(r);
        if (how == "make") return std::make_unique<DifOf>(K<R>::make(r));
        R o = build<R>("ctor", {1, 2, 3}); o = r; return std::make_unique<DifOf>(o);
    }
    P conv(std::string const& t, std::string const& how) const override { return ::conv(r, t, how, typename Group<R>::type()); }
    P plus(Dif const& b) const override { return ::plus(r, b, typename Group<R>::type()); }
    bool eq(Dif const& o) const override { auto p = dynamic_cast<DifOf const*>(&o); if (!p) bad(); return r == p->r; }
    void times(double s, Obs& o) const override {
        typedef typename R::type T;
        o.raw("geo", d3(where(r * Q<bun::si::time, T>::from_value((T)s))));
    }
    void mag(Obs& o) const override { o.dbl("mag", r.magnitude()); }
    void unit(std::string const& t, Obs& o) const override { ::unit(r, t, o, typename Group<R>::type()); }
    void look(Obs& o) const override {
        V3 c = raw(r); auto t = K<R>::tuple(r);
        V3 u = {(double)std::get<0>(t).value(), (double)std::get<1>(t).value(), (double)std::get<2>(t).value()};
        o.raw("c", d3(c)); o.boolean("tuple", c == u); o.raw("geo", d3(where(r))); o.boolean("range", principal(K<R>::kind, sis(r)));
    }
};
static proto::Per<std::array<P, 4>> regs_;
static std::array<P, 4>& regs() { return regs_.own(); }
static Dif& reg(std::string const& s) { return *regs().at(std::stoi(s)); }
static P make(Args const&, V3 const&, List<>) { bad(); }
template <typename R, typename... Ts> static P make(Args const& a, V3 const& c, List<R, Ts...>) { if (a[1] == Name<R>::get()) return std::make_unique<DifOf<R>>(build<R>(a[2], c)); return make(a, c, List<Ts...>()); }
template <typename Pt, typename R> static P from(Pt const& p, bool make) {
    if (make) return std::make_unique<DifOf<R>>(K<R>::template units<R>(p));
    return std::make_unique<DifOf<R>>(R(p));
}
template <typename R> static P point(std::string const& sys, V3 const& c, bool make) {
    typedef typename R::type T;
    auto fill = [&c](auto p) { bgm::set<0>(p, (T)c[0]); bgm::set<1>(p, (T)c[1]); bgm::set<2>(p, (T)c[2]); return p; };
    typedef bgm::model::point<T, 3, bgm::cs::cartesian> PC;
    typedef bgm::model::point<T, 3, bgm::cs::spherical<bgm::radian>> PSR; typedef bgm::model::point<T, 3, bgm::cs::spherical<bgm::degree>> PSD;
    typedef bgm::model::point<T, 3, bgm::cs::spherical_equatorial<bgm::radian>> PER; typedef bgm::model::point<T, 3, bgm::cs::spherical_equatorial<bgm::degree>> PED;
    if (sys == "C") return from<PC, R>(fill(PC()), make);
    if (sys == "Sr") return from<PSR, R>(fill(PSR()), make);
    if (sys == "Sd") return from<PSD, R>(fill(PSD()), make);
    if (sys == "Er") return from<PER, R>(fill(PER()), make);
    if (sys == "Ed") return from<PED, R>(fill(PED()), make);
    bad();
}
static P points(Args const&, List<>) { bad(); }
template <typename R, typename... Ts> static P points(Args const& a, List<R, Ts...>) { if (a[1] == Name<R>::get()) return point<R>(a[2], v3(a, 4), a[3] == "make"); return points(a, List<Ts...>()); }

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["new"] = [](Args const& a, Obs&) { auto c = v3(a, 3); regs().at(std::stoi(a[0])) = a[1][1] == 'f' ? make(a, c, Floats()) : make(a, c, Doubles()); };
    h["point"] = [](Args const& a, Obs&) { regs().at(std::stoi(a[0])) = a[1][1] == 'f' ? points(a, Floats()) : points(a, Doubles()); };   // r type system how c
    h["put"] = [](Args const& a, Obs&) { reg(a[0]).put(std::stoi(a[1]), thousandths(a[2])); };
    h["putall"] = [](Args const& a, Obs&) { reg(a[0]).putall(v3(a, 1)); };
    h["copy"] = [](Args const& a, Obs&) { auto c = reg(a[0]).copy(a[2]); regs().at(std::stoi(a[1])) = std::move(c); };
    h["conv"] = [](Args const& a, Obs&) { auto c = reg(a[0]).conv(a[2], a[3]); regs().at(std::stoi(a[1])) = std::move(c); };   // r q type how
    h["plus"] = [](Args const& a, Obs&) { auto c = reg(a[0]).plus(reg(a[1])); regs().at(std::stoi(a[2])) = std::move(c); };
    h["times"] = [](Args const& a, Obs& o) { reg(a[0]).times(thousandths(a[1]), o); };
    h["mag"] = [](Args const& a, Obs& o) { reg(a[0]).mag(o); };
    h["unit"] = [](Args const& a, Obs& o) { reg(a[0]).unit(a[1], o); };
    h["look"] = [](Args const& a, Obs& o) { reg(a[0]).look(o); };
    h["eq"] = [](Args const& a, Obs& o) { o.boolean("eq", reg(a[0]).eq(reg(a[1]))); };
    h["eqx"] = [](Args const& a, Obs& o) { o.boolean("eq", dynamic_cast<DifOf<Cm>&>(reg(a[0])).r == dynamic_cast<DifOf<Cx>&>(reg(a[1])).r); };   // only for a known finding
    return proto::run(argc, argv, h, [] { for (auto& r : regs()) r.reset(); }, describe);
}
