// Conformance driver for spec/Vec.tla: the algebra of representations.
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include "rep.hpp"

template <typename... Ts> struct List {};
typedef List<Cm, Cx, Sd, Sx, Ed, Ex> Doubles;
typedef List<Cf, Sf, Ef> Floats;
template <typename R> struct Group { typedef typename std::conditional<std::is_same<typename R::type, float>::value, Floats, Doubles>::type type; };

struct Rep { virtual ~Rep() {} virtual void two(std::string const&, Rep const&, Obs&, std::unique_ptr<Rep>&) const = 0; virtual void one(std::string const&, Obs&) const = 0; virtual void look(Obs&) const = 0; };
template <typename R> struct RepOf;
template <typename A, typename B> void both(std::string const& op, A const& a, B const& b, Obs& o, std::unique_ptr<Rep>& out) {
    if (op == "dot") o.dbl("dot", si(bac::dot(a, b)));
    else if (op == "cross") o.raw("cross", d3(where(bac::cross(a, b))));
    else if (op == "sum") out = std::make_unique<RepOf<A>>(bac::sum(a, b));
    else if (op == "mean") out = std::make_unique<RepOf<A>>(bac::mean(a, b));
    else if (op == "plus") out = std::make_unique<RepOf<A>>(a + b);
    else bad();
}
template <typename A> void pick(std::string const&, A const&, Rep const&, Obs&, std::unique_ptr<Rep>&, List<>) { bad(); }
template <typename A, typename B, typename... Bs> void pick(std::string const& op, A const& a, Rep const& r, Obs& o, std::unique_ptr<Rep>& out, List<B, Bs...>) {
    if (auto p = dynamic_cast<RepOf<B> const*>(&r)) both(op, a, p->r, o, out); else pick(op, a, r, o, out, List<Bs...>());
}
template <typename R> struct RepOf : Rep {
    R r;
    RepOf(R const& o) : r(o) {}
    void two(std::string const& op, Rep const& b, Obs& o, std::unique_ptr<Rep>& out) const override { pick(op, r, b, o, out, typename Group<R>::type()); }
    void one(std::string const& op, Obs& o) const override {
        if (op == "mag") o.dbl("mag", si(bac::magnitude(r)));
        else if (op == "unit") {
            auto u = bac::unit_vector(r); V3 c = sis(u), n = raw(u);
            if (K<R>::kind == 'C') c = n; else c[2] = n[2];
            o.raw("unit", d3(geo(K<R>::kind, c)));
        } else bad();
    }
    void look(Obs& o) const override { o.raw("geo", d3(where(r))); }
};
static proto::Per<std::array<std::unique_ptr<Rep>, 4>> regs_;
static std::array<std::unique_ptr<Rep>, 4>& regs() { return regs_.own(); }
static Rep& reg(std::string const& s) { return *regs().at(std::stoi(s)); }
template <typename R> static std::unique_ptr<Rep> made(Args const& a) { return std::make_unique<RepOf<R>>(build<R>(a[2], v3(a, 3))); }

int main(int argc, char** argv) {
    std::map<std::string, proto::Handler> h;
    h["new"] = [](Args const& a, Obs&) {              // r type how c
        auto& r = regs().at(std::stoi(a[0])); std::string const& t = a[1];
        r = t == "Cm" ? made<Cm>(a) : t == "Cx" ? made<Cx>(a) : t == "Sd" ? made<Sd>(a) : t == "Sx" ? made<Sx>(a) : t == "Ed" ? made<Ed>(a) : t == "Ex" ? made<Ex>(a) :
            t == "Cf" ? made<Cf>(a) : t == "Sf" ? made<Sf>(a) : t == "Ef" ? made<Ef>(a) : nullptr;
        if (!r) bad();
    };
    auto two = [](char const* n) { return [n](Args const& a, Obs& o) { std::unique_ptr<Rep> out; reg(a[0]).two(n, reg(a[1]), o, out); if (out) regs().at(std::stoi(a[2])) = std::move(out); }; };
    for (auto n : {"dot", "cross", "sum", "mean", "plus"}) h[n] = two(n);
    for (auto n : {"mag", "unit"}) h[n] = [n](Args const& a, Obs& o) { reg(a[0]).one(n, o); };
    h["look"] = [](Args const& a, Obs& o) { reg(a[0]).look(o); };
    return proto::run(argc, argv, h, [] { for (auto& r : regs()) r.reset(); }, describe);
}
