// Conformance driver for spec/Vec.tla: representations of positions, their conversions and what they print.
#include "rep.hpp"

struct Rep {
    virtual ~Rep() {}
    virtual void put(int, double) = 0; virtual void putall(V3 const&) = 0; virtual void look(Obs&) const = 0;
    virtual std::unique_ptr<Rep> copy(std::string const&) const = 0; virtual std::unique_ptr<Rep> conv(std::string const&, std::string const&) const = 0;
    virtual bool eq(Rep const&) const = 0;
};
template <typename R> struct RepOf;
template <typename To, typename From, bool same> struct Units { static To go(From const&) { bad(); } };
template <typename To, typename From> struct Units<To, From, true> { static To go(From const& f) { return K<To>::template units<To>(f); } };
template <typename To, typename From> std::unique_ptr<Rep> convert(From const& f, std::string const& how) {
    if (how == "ctor") return std::make_unique<RepOf<To>>(To(f));
    if (how == "make") return std::make_unique<RepOf<To>>(To(K<To>::make(f)));
    if (how == "units") return std::make_unique<RepOf<To>>(Units<To, From, K<To>::kind == K<From>::kind && !std::is_same<To, From>::value>::go(f));
    if (how == "to") return std::make_unique<RepOf<To>>(f.template to_representation<To>());
    bad();
}
template <typename From, typename T> struct Conv {
    static std::unique_ptr<Rep> go(From const& f, std::string const& t, std::string const& how) {
        if (t == "Cm") return convert<Cm>(f, how);
        if (t == "Cx") return convert<Cx>(f, how);
        if (t == "Sd") return convert<Sd>(f, how);
        if (t == "Sx") return convert<Sx>(f, how);
        if (t == "Ed") return convert<Ed>(f, how);
        if (t == "Ex") return convert<Ex>(f, how);
        bad();
    }
};
template <typename From> struct Conv<From, float> {
    static std::unique_ptr<Rep> go(From const& f, std::string const& t, std::string const& how) {
        if (t == "Cf") return convert<Cf>(f, how);
        if (t == "Sf") return convert<Sf>(f, how);
        if (t == "Ef") return convert<Ef>(f, how);
        bad();
    }
};
template <typename R> struct RepOf : Rep {
    R r;
    RepOf(R const& o) : r(o) {}
    void put(int k, double v) override { ::put(r, k, v); }
    void putall(V3 const& v) override { K<R>::set(r, q1<R>(v[0]), q2<R>(v[1]), q3<R>(v[2])); }
    std::unique_ptr<Rep> copy(std::string const& how) const override {
        if (how == "copy") return std::make_unique<RepOf>(r);
        if (how == "make") return std::make_unique<RepOf>(K<R>::make(r));
        R o = build<R>("ctor", {1, 2, 3}); o = r; return std::make_unique<RepOf>(o);
    }
    std::unique_ptr<Rep> conv(std::string const& t, std::string const& how) const override { return Conv<R, typename R::type>::go(r, t, how); }
    bool eq(Rep const& o) const override { auto p = dynamic_cast<RepOf const*>(&o); if (!p) bad(); return r == p->r; }
    void look(Obs& o) const override {
        V3 c = raw(r); auto t = K<R>::tuple(r);
        V3 u = {(double)std::get<0>(t).value(), (double)std::get<1>(t).value(), (double)std::get<2>(t).value()};
        o.raw("c", d3(c)); o.boolean("tuple", c == u); o.raw("geo", d3(where(r))); o.boolean("range", principal(K<R>::kind, sis(r)));
        auto p = r.get_point(); o.raw("point", d3({(double)bgm::get<0>(p), (double)bgm::get<1>(p), (double)bgm::get<2>(p)}));
        std::ostringstream s; s.precision(15); s << r; shown(o, s.str());
    }
};
static proto::Per<std::array<std::unique_ptr<Rep>, 4>> regs_;
static std::array<std::unique_ptr<Rep>, 4>& regs() { return regs_.own(); }
static Rep& reg(std::string const& s) { return *regs().at(std::stoi(s)); }
template <typename P, typename R> static std::unique_ptr<Rep> from(P const& p, bool make) {
    if (make) return std::make_unique<RepOf<R>>(K<R>::template units<R>(p));
    return std::make_unique<RepOf<R>>(R(p));
}
template <typename R> static std::unique_ptr<Rep> point(std::string const& sys, V3 const& c, bool make) {
    typedef typename R::type T;
    auto fill = [&c](auto p) { bgm::set<0>(p, (T)c[0]); bgm::set<1>(p, (T)c[1]); bgm::set<2>(p, (T)c[2]); return p; };
    typedef bgm::model::point<T, 3, bgm::cs::cartesian> PC;
    typedef bgm::model::point<T, 3, bgm::cs::spherical<bgm::radian>> PSR; typedef bgm::model::point<T, 3, bgm::cs::spherical<bgm::degree>> PSD;
    typedef bgm::model::point<T, 3, bgm::cs::spherical_equatorial<bgm::radian>> PER; typedef bgm::model::point<T, 3, bgm::cs::spherical_equatorial<bgm::degree>> PED;
    if (sys == "C") return from<PC, R>(fill(PC()), make);
    if (sys == "Sr") return from<PSR, R>(fill(PSR()), make);
    if (sys == "Sd") return from<PSD, R>(fill(PSD()), make);
    if (sys == "Er") return from<PER, R>(fill(PER()), make);
    if (sys == "Ed") return from<PED, R>(fill(PED()), make);
    bad();
}
template <typename F> static auto on(std::string const& t, F f) {
    if (t == "Cm") return f(static_cast<Cm*>(nullptr));
    if (t == "Cx") return f(static_cast<Cx*>(nullptr));
    if (t == "Sd") return f(static_cast<Sd*>(nullptr));
    if (t == "Sx") return f(static_cast<Sx*>(nullptr));
    if (t == "Ed") return f(static_cast<Ed*>(nullptr));
    if (t == "Ex") return f(static_cast<Ex*>(nullptr));
    if (t == "Cf") return f(static_cast<Cf*>(nullptr));
    if (t == "Sf") return f(static_cast<Sf*>(nullptr));
    if (t == "Ef") return f(static_cast<Ef*>(nullptr));
    bad();
}

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["new"] = [](Args const& a, Obs&) {              // r type how c
        regs().at(std::stoi(a[0])) = on(a[1], [&a](auto* p) -> std::unique_ptr<Rep> { typedef std::decay_t<decltype(*p)> R; return std::make_unique<RepOf<R>>(build<R>(a[2], v3(a, 3))); });
    };
    h["point"] = [](Args const& a, Obs&) {            // r type system how c
        regs().at(std::stoi(a[0])) = on(a[1], [&a](auto* p) -> std::unique_ptr<Rep> { typedef std::decay_t<decltype(*p)> R; return point<R>(a[2], v3(a, 4), a[3] == "make"); });
    };
    h["put"] = [](Args const& a, Obs&) { reg(a[0]).put(std::stoi(a[1]), thousandths(a[2])); };
    h["putall"] = [](Args const& a, Obs&) { reg(a[0]).putall(v3(a, 1)); };
    h["copy"] = [](Args const& a, Obs&) { auto c = reg(a[0]).copy(a[2]); regs().at(std::stoi(a[1])) = std::move(c); };
    h["conv"] = [](Args const& a, Obs&) { auto c = reg(a[0]).conv(a[2], a[3]); regs().at(std::stoi(a[1])) = std::move(c); };   // r q type how
    h["look"] = [](Args const& a, Obs& o) { reg(a[0]).look(o); };
    h["eq"] = [](Args const& a, Obs& o) { o.boolean("eq", reg(a[0]).eq(reg(a[1]))); };
    h["eqx"] = [](Args const& a, Obs& o) { o.boolean("eq", dynamic_cast<RepOf<Cm>&>(reg(a[0])).r == dynamic_cast<RepOf<Cx>&>(reg(a[1])).r); };   // only for a known finding
    return proto::run(argc, argv, h, [] { for (auto& r : regs()) r.reset(); }, describe);
}
