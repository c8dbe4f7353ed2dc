// K18 - K21: planetary fly-bys, the planet wrapper and its two-body and JPL ephemerides.
// kep3/planet.hpp needs heyoka's tanuki.hpp: shim/heyoka stands in for it.
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/epoch.hpp>
#include <kep3/exceptions.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>

#include "prop.hpp"

using namespace gen;
using kep3::elements_type;
using kep3::epoch;
using kep3::planet;
using kep3::udpla::jpl_lp;
using kep3::udpla::keplerian;
using ref::d6;
using ref::dn;
using ref::q;
using ref::qv3;

namespace
{
constexpr double half_mu_s = 0.5e-6; // epochs are microseconds: half of the resolution, in seconds

// An orbit away from every singularity of the classical elements: the conversions lose no digits here.
struct Calm {
    double p, e, i, W, w, f, mu;
    bool hyper;
    state rv;
    [[nodiscard]] double a() const
    {
        return p / (1 - e * e);
    }
};
double calm_angle(Case &c, double top)
{
    double quarter = c.real(0.05, pi / 2 - 0.05);
    return quarter + static_cast<double>(c.integer(0, top > 4 ? 3 : 1)) * pi / 2;
}
Calm calm(Case &c, int conic = -1)
{
    Calm o{};
    auto u = units(c);
    o.mu = u.mu;
    o.hyper = conic < 0 ? c.chance(0.3) : conic == 1;
    o.e = o.hyper ? c.real(1.1, 4.) : c.real(0.02, 0.85);
    o.p = u.L * c.logreal(0.3, 3.) * (1 + o.e);
    o.i = calm_angle(c, pi);
    o.W = calm_angle(c, 2 * pi);
    o.w = calm_angle(c, 2 * pi);
    if (o.hyper) {
        o.f = c.sign() * c.real(0.05, std::acos(-1. / o.e) - 0.1);
    } else {
        o.f = calm_angle(c, 2 * pi);
    }
    o.rv = dn(ref::from_elements(o.p, o.e, o.i, o.W, o.w, o.f, o.mu));
    c.label(o.hyper ? "hyperbola" : "ellipse");
    return o;
}
ref::qstate from_meq(const d6 &m, q mu, bool retro)
{
    // p, f, g, h, k, L by their definition: equinoctial frame with its first axis turned from the node.
    q p = m[0], f = m[1], g = m[2], h = m[3], k = m[4], L = m[5], I = retro ? -1 : 1;
    q s = 1 + h * h + k * k;
    qv3 fu{(1 - k * k + h * h) / s, 2 * h * k / s, -2 * I * k / s};
    qv3 gu{2 * I * h * k / s, (1 + k * k - h * h) * I / s, 2 * h / s};
    q r = p / (1 + f * cosq(L) + g * sinq(L)), v = sqrtq(mu / p);
    ref::qstate o;
    o[0] = ref::scale(ref::add(ref::scale(fu, cosq(L)), ref::scale(gu, sinq(L))), r);
    o[1] = ref::scale(ref::add(ref::scale(fu, -(g + sinq(L))), ref::scale(gu, f + cosq(L))), v);
    return o;
}
q solve_kepler(q M, q e)
{
    M = M - 2 * ref::qpi * roundq(M / (2 * ref::qpi));
    q lo = M - e - 0.1q, hi = M + e + 0.1q, E = M;
    for (int k = 0; k < 300 && hi - lo > 1e-32q; ++k) {
        q fv = E - e * sinq(E) - M;
        if (fabsq(fv) < 1e-31q) {
            break;
        }
        (fv > 0 ? hi : lo) = E;
        q n = E - fv / (1 - e * cosq(E));
        E = n > lo && n < hi ? n : (lo + hi) / 2;
    }
    return E;
}
// The state that a set of elements of the given type stands for.
ref::qstate state_of(const d6 &el, elements_type t, q mu)
{
    if (t == kep3::MEQ || t == kep3::MEQ_R) {
        return from_meq(el, mu, t == kep3::MEQ_R);
    }
    q a = el[0], e = el[1], f = el[5];
    if (t == kep3::KEP_M) {
        q E = solve_kepler(f, e);
        f = 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
    }
    return ref::from_elements(a * (1 - e * e), e, el[2], el[3], el[4], f, mu);
}
// Elements of a calm orbit in a given type, from their definitions.
d6 elements_of(const Calm &o, elements_type t)
{
    if (t == kep3::MEQ || t == kep3::MEQ_R) {
        q I = t == kep3::MEQ_R ? -1 : 1, W = o.W, w = o.w, tn = tanq(q(o.i) / 2);
        if (t == kep3::MEQ_R) {
            tn = 1 / tn;
        }
        return {o.p,          dn(o.e * cosq(w + I * W)), dn(o.e * sinq(w + I * W)), dn(tn * cosq(W)), dn(tn * sinq(W)),
                dn(q(o.f) + w + I * W)};
    }
    double ano = o.f;
    if (t == kep3::KEP_M) {
        q E = 2 * atan2q(sqrtq(1 - q(o.e)) * sinq(q(o.f) / 2), sqrtq(1 + q(o.e)) * cosq(q(o.f) / 2));
        ano = dn(E - o.e * sinq(E));
    }
    return {dn(q(o.p) / (1 - q(o.e) * o.e)), o.e, o.i, o.W, o.w, ano};
}
double calm_tol(const Calm &o)
{
    // Sensitivities of the state to its elements and back, all bounded for calm orbits.
    double sf = o.hyper ? o.e / (1 + o.e * std::cos(o.f)) : 1 / (1 - o.e);
    return 2000 * eps * sf * sf * (1 + 1 / o.e);
}
void same_state(Case &c, const std::string &what, const state &got, const ref::qstate &want, double rel)
{
    double R = dn(ref::norm(want[0])), V = dn(ref::norm(want[1]));
    c.ratio(what + " (position)", ref::dist(got[0], want[0]), rel * R);
    c.ratio(what + " (velocity)", ref::dist(got[1], want[1]), rel * V);
}
const char *tname(elements_type t)
{
    return t == kep3::KEP_M ? "KEP_M" : t == kep3::KEP_F ? "KEP_F" : t == kep3::MEQ ? "MEQ" : t == kep3::MEQ_R ? "MEQ_R" : "POSVEL";
}
template <typename E, typename F>
bool throws(F &&f)
{
    try {
        f();
    } catch (const E &) {
        return true;
    } catch (...) {
    }
    return false;
}
template <typename T>
T through_archive(Case &c, const T &x, T z = T{}, bool text = true)
{
    std::stringstream s;
    // Text archives cannot hold the NaN period of a hyperbola, and planets are exported to binary archives only.
    bool bin = c.chance(0.5);
    if (std::is_same_v<T, planet> || !text || bin) {
        {
            boost::archive::binary_oarchive a(s);
            a << x;
        }
        boost::archive::binary_iarchive a(s);
        a >> z;
    } else {
        {
            boost::archive::text_oarchive a(s);
            a << x;
        }
        boost::archive::text_iarchive a(s);
        a >> z;
    }
    return z;
}
// Elements in every type must stand for the given state; the period must be Kepler's.
template <typename P>
void orbit_of(Case &c, const std::string &what, const P &p, double mjd, const state &rv, double mu, bool hyper, double tol)
{
    auto want = ref::up(rv);
    for (auto t : {kep3::KEP_F, kep3::KEP_M, kep3::MEQ, kep3::MEQ_R}) {
        if (t == kep3::KEP_M && hyper) {
            c.check(throws<std::logic_error>([&]() { (void)p.elements(mjd, t); }), what + ": mean anomaly of a hyperbola is not refused");
            continue;
        }
        auto el = p.elements(mjd, t);
        same_state(c, what + " elements " + tname(t), dn(state_of(el, t, mu)), want, tol);
    }
    c.check(p.elements(mjd) == p.elements(mjd, kep3::KEP_F), what + ": the default elements are not those with the true anomaly");
    c.check(throws<std::logic_error>([&]() { (void)p.elements(mjd, kep3::POSVEL); }), what + ": elements of type POSVEL are not refused");
    auto e = ref::elements(want, mu);
    double T = p.period(mjd);
    if (hyper) {
        c.check(std::isnan(T), what + ": a hyperbola has a period");
    } else {
        double Tq = dn(2 * ref::qpi * sqrtq(e.a * e.a * e.a / mu));
        c.close(what + " period", T, Tq, tol * Tq);
    }
}
} // namespace

// ---------------------------------------------------------------------------------------------- user-defined planets
namespace test_udpla
{
// What each user planet provides beyond the ephemeris.
struct body {
    state rv{{{1., 0., 0.}, {0., 1., 0.}}};
    double mu = 1., T0 = 0.;
    // Two-body motion from rv at T0: any function of time would do, this one has known elements.
    [[nodiscard]] state eph(double mjd) const
    {
        return dn(ref::kepler(rv, (mjd - T0) * 86400., mu));
    }
    template <typename A>
    void serialize(A &a, unsigned)
    {
        a & rv & mu & T0;
    }
};
struct only_eph : body {
};
struct with_mu : body {
    [[nodiscard]] double get_mu_central_body() const
    {
        return mu;
    }
};
struct with_period : body {
    [[nodiscard]] double period(double mjd) const
    {
        return 3. * mjd + 1.;
    }
};
struct with_elements : body {
    [[nodiscard]] std::array<double, 6> elements(double mjd, kep3::elements_type t) const
    {
        return {mjd, static_cast<double>(t), 3., 4., 5., 6.};
    }
};
struct everything : body {
    double mu_self = 0.1, radius = 0.2, safe = 0.3;
    std::string name = "everything", extra = "extra";
    [[nodiscard]] double get_mu_central_body() const
    {
        return mu;
    }
    [[nodiscard]] double get_mu_self() const
    {
        return mu_self;
    }
    [[nodiscard]] double get_radius() const
    {
        return radius;
    }
    [[nodiscard]] double get_safe_radius() const
    {
        return safe;
    }
    [[nodiscard]] std::string get_name() const
    {
        return name;
    }
    [[nodiscard]] std::string get_extra_info() const
    {
        return extra;
    }
    [[nodiscard]] std::vector<double> eph_v(const std::vector<double> &t) const
    {
        return std::vector<double>(t.rbegin(), t.rend());
    }
    [[nodiscard]] double period(double mjd) const
    {
        return 2. * mjd;
    }
    [[nodiscard]] std::array<double, 6> elements(double mjd, kep3::elements_type t) const
    {
        return {static_cast<double>(t), mjd, 3., 4., 5., 6.};
    }
    template <typename A>
    void serialize(A &a, unsigned v)
    {
        body::serialize(a, v);
        a & mu_self & radius & safe & name & extra;
    }
};
} // namespace test_udpla
TANUKI_S11N_WRAP_EXPORT(test_udpla::only_eph, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(test_udpla::with_mu, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(test_udpla::with_period, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(test_udpla::with_elements, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(test_udpla::everything, kep3::detail::planet_iface)

namespace
{
using namespace test_udpla;

bool has(const std::string &s, const std::string &x)
{
    return s.find(x) != std::string::npos;
}
template <typename T>
void check_wrapper(Case &c, const T &u, const Calm &o, const std::string &kind)
{
    constexpr bool all = std::is_same_v<T, everything>, mu = all || std::is_same_v<T, with_mu>;
    planet orig(u);
    planet p = orig;
    bool stored = c.chance(0.3);
    if (stored) {
        p = through_archive(c, orig);
        c.label("stored and loaded");
    }
    planet moved = planet(orig);
    planet target(only_eph{});
    target = std::move(moved);
    if (c.chance(0.2)) {
        p = std::move(target);
    }
    c.check(p.template extract<T>() != nullptr && p.template extract<keplerian>() == nullptr, kind + ": the planet does not hold the object given");
    // Time scale of the orbit in days, so that the planet moves.
    double n = std::sqrt(o.mu / std::pow(std::abs(o.a()), 3));
    auto when = [&]() { return u.T0 + c.real(-2., 2.) / n / 86400.; };
    double t = when();
    c.show("mjd2000", t);
    c.check(p.eph(t) == u.eph(t), kind + ": the ephemeris is not that of the object");
    double te = c.real(-20000., 20000.);
    epoch ep(te);
    c.check(p.eph(ep) == u.eph(ep.mjd2000()), kind + ": the ephemeris at an epoch is not that at its MJD2000");
    std::vector<double> ts(static_cast<std::size_t>(c.integer(0, 6)));
    for (auto &x : ts) {
        x = when();
    }
    std::vector<double> want;
    if constexpr (all) {
        want = u.eph_v(ts);
    } else {
        for (double x : ts) {
            auto s = u.eph(x);
            want.insert(want.end(), s[0].begin(), s[0].end());
            want.insert(want.end(), s[1].begin(), s[1].end());
        }
    }
    c.check(p.eph_v(ts) == want, kind + ": the vectorised ephemerides are not the single ones in order");
    c.check(p.get_mu_central_body() == (mu ? u.mu : -1.), kind + ": central body parameter");
    if constexpr (all) {
        c.check(p.get_mu_self() == u.mu_self && p.get_radius() == u.radius && p.get_safe_radius() == u.safe && p.get_name() == u.name && p.get_extra_info() == u.extra,
                kind + ": a value declared by the object is not reported");
    } else {
        c.check(p.get_mu_self() == -1. && p.get_radius() == -1. && p.get_safe_radius() == -1. && p.get_extra_info().empty(), kind + ": an undeclared value is not -1 or empty");
        c.check(has(p.get_name(), kind), kind + ": the default name is not that of the class");
    }
    if constexpr (all || std::is_same_v<T, with_period>) {
        c.check(p.period(t) == u.period(t) && p.period() == u.period(0.) && p.period(ep) == u.period(ep.mjd2000()), kind + ": the period is not that of the object");
    }
    if constexpr (all || std::is_same_v<T, with_elements>) {
        auto el = c.pick({kep3::KEP_F, kep3::KEP_M, kep3::MEQ, kep3::MEQ_R, kep3::POSVEL});
        c.check(p.elements(t, el) == u.elements(t, el) && p.elements() == u.elements(0., kep3::KEP_F) && p.elements(ep, el) == u.elements(ep.mjd2000(), el)
                    && p.elements(ep) == u.elements(ep.mjd2000(), kep3::KEP_F),
                kind + ": the elements are not those of the object");
    }
    if constexpr (std::is_same_v<T, with_mu>) {
        // At the reference time the orbit is calm.
        orbit_of(c, kind, p, u.T0, o.rv, o.mu, o.hyper, calm_tol(o));
        epoch e0(u.T0);
        c.check(p.period(e0) == p.period(e0.mjd2000()) || o.hyper, kind + ": the period at an epoch is not that at its MJD2000");
        c.check(p.elements(e0, kep3::MEQ) == p.elements(e0.mjd2000(), kep3::MEQ), kind + ": the elements at an epoch are not those at its MJD2000");
    }
    if constexpr (!mu && !std::is_same_v<T, with_period>) {
        c.check(throws<kep3::not_implemented_error>([&]() { (void)p.period(t); }), kind + ": a period out of nothing");
    }
    if constexpr (!mu && !std::is_same_v<T, with_elements>) {
        c.check(throws<kep3::not_implemented_error>([&]() { (void)p.elements(t); }), kind + ": elements out of nothing");
    }
    // Copies are independent.
    planet q2 = p;
    q2.template extract<T>()->mu = 77.;
    c.check(p.template extract<T>()->mu == u.mu, kind + ": a copy shares its object with the original");
    std::ostringstream s;
    s << p;
    c.check(has(s.str(), p.get_name()) && has(s.str(), fmt::format("{}", p.get_mu_central_body())) && has(s.str(), p.get_extra_info())
                && has(s.str(), fmt::format("{}", p.get_safe_radius())) && has(s.str(), fmt::format("{}", p.get_radius())) && has(s.str(), fmt::format("{}", p.get_mu_self())),
            kind + ": the printed form lacks one of the values");
    c.check(fmt::format("{}", p) == s.str(), kind + ": the formatted form differs from the printed one");
}
} // namespace

PROP("K19", "wrapper", 30000, 600000, "a planet with something undeclared that moves")
{
    auto o = calm(c);
    c.show("rv", o.rv);
    c.show("mu", o.mu);
    double T0 = c.pick({0., 1234.5, -8000.25});
    auto set = [&](auto u) {
        u.rv = o.rv, u.mu = o.mu, u.T0 = T0;
        return u;
    };
    c.nontrivial();
    switch (c.integer(0, 5)) {
        case 0:
            check_wrapper(c, set(only_eph{}), o, "only_eph");
            break;
        case 1:
            check_wrapper(c, set(with_period{}), o, "with_period");
            break;
        case 2:
            check_wrapper(c, set(with_elements{}), o, "with_elements");
            break;
        case 3: {
            auto u = set(everything{});
            u.mu_self = c.logreal(1e-3, 1e15), u.radius = c.logreal(1e-3, 1e8), u.safe = u.radius * c.real(1., 2.);
            u.name = c.pick({"Gaia", "x y", "1"});
            u.extra = c.pick({"", "something", "a\nb"});
            check_wrapper(c, u, o, "everything");
            break;
        }
        default:
            check_wrapper(c, set(with_mu{}), o, "with_mu");
    }
    planet z;
    c.check(z.eph(T0) == state{{{1., 0., 0.}, {0., 1., 0.}}} && z.get_mu_central_body() == -1., "the default planet is not the documented one");
    c.check(throws<kep3::not_implemented_error>([&]() { (void)z.period(0.); }), "the default planet has a period");
}

// ------------------------------------------------------------------------------------------------------- keplerian
PROP("K20", "from_a_state", 20000, 400000, "away from the reference epoch")
{
    auto o = calm(c);
    double ref = c.chance(0.2) ? 0. : c.real(-20000., 20000.);
    epoch e0(ref);
    std::array<double, 3> add{c.logreal(1e-3, 1e10), c.logreal(1e-3, 1e10), c.logreal(1e-3, 1e10)};
    std::string name = c.pick({"a", "Apophis 99942", ""});
    keplerian k(e0, o.rv, o.mu, name, add);
    bool stored = c.chance(0.3);
    if (stored) {
        k = through_archive(c, k, keplerian{}, !o.hyper);
    }
    planet p(k);
    if (stored && c.chance(0.5)) {
        p = through_archive(c, p, planet{}, !o.hyper);
    }
    c.check(k.get_ref_epoch() == e0 && k.get_name() == name && k.get_mu_central_body() == o.mu && k.get_mu_self() == add[0] && k.get_radius() == add[1]
                && k.get_safe_radius() == add[2],
            "a value given to the constructor is not reported");
    c.check(p.get_name() == name && p.get_mu_central_body() == o.mu && p.get_mu_self() == add[0] && p.get_radius() == add[1] && p.get_safe_radius() == add[2],
            "a value given to the constructor is not reported by the planet");
    double n = std::sqrt(o.mu / std::pow(std::abs(o.a()), 3));
    double x = (o.hyper ? c.real(-4., 4.) : c.chance(0.3) ? c.real(-30., 30.) : c.real(-2 * pi, 2 * pi));
    if (c.chance(0.05)) {
        x = 0;
    }
    double t = e0.mjd2000() + x / n / 86400.;
    c.show("rv", o.rv);
    c.show("mu", o.mu);
    c.show("ref", ref);
    c.show("mjd2000", t);
    // The two day counts are doubles: their difference is exact to one rounding.
    q dt = (q(t) - q(e0.mjd2000())) * 86400;
    auto want = ref::kepler(ref::up(o.rv), dt, o.mu);
    auto es = err_scale(o.rv, dn(dt), o.mu);
    auto got = p.eph(t);
    c.ratio("ephemeris (position)", ref::dist(got[0], want[0]), es.r);
    c.ratio("ephemeris (velocity)", ref::dist(got[1], want[1]), es.v);
    c.check(k.eph(t) == got, "the planet and its two-body object disagree");
    epoch et(t);
    c.check(p.eph(et) == k.eph(et.mjd2000()), "the ephemeris at an epoch is not that at its MJD2000");
    // The elements are those at the reference epoch (the orbit does not change).
    orbit_of(c, "two-body", p, c.chance(0.5) ? ref : t, o.rv, o.mu, o.hyper, calm_tol(o));
    auto info = k.get_extra_info();
    c.check(has(info, fmt::format("{}", e0)) && has(info, fmt::format("{}", k.elements()[0])) && has(info, fmt::format("{}", k.elements()[1])),
            "the extra information lacks the reference epoch or the elements");
    c.nontrivial(x != 0);
}

PROP("K20", "from_elements", 20000, 400000, "always: elements of a given type")
{
    auto t = c.pick({kep3::KEP_F, kep3::KEP_M, kep3::MEQ, kep3::MEQ_R});
    auto o = calm(c, t == kep3::KEP_M ? 0 : -1);
    auto el = elements_of(o, t);
    double ref = c.real(-20000., 20000.);
    epoch e0(ref);
    c.show("elements", el);
    c.show("type", std::string(tname(t)));
    c.show("mu", o.mu);
    std::array<double, 3> add{c.logreal(1e-3, 1e10), c.logreal(1e-3, 1e10), c.logreal(1e-3, 1e10)};
    keplerian k(e0, el, o.mu, "from elements", add, t);
    if (c.chance(0.3)) {
        k = through_archive(c, k, keplerian{}, !o.hyper);
    }
    c.check(k.get_ref_epoch() == e0 && k.get_name() == "from elements" && k.get_mu_central_body() == o.mu && k.get_mu_self() == add[0] && k.get_radius() == add[1]
                && k.get_safe_radius() == add[2],
            "a value given to the constructor is not reported");
    double tol = calm_tol(o);
    same_state(c, std::string("state at the reference epoch from ") + tname(t), k.eph(e0.mjd2000()), state_of(el, t, o.mu), tol);
    orbit_of(c, std::string("from ") + tname(t), planet(k), ref, o.rv, o.mu, o.hyper, 4 * tol);
    // A quarter of a typical time later it is where the two-body problem says.
    double n = std::sqrt(o.mu / std::pow(std::abs(o.a()), 3)), t1 = e0.mjd2000() + c.real(-1.5, 1.5) / n / 86400.;
    q dt = (q(t1) - q(e0.mjd2000())) * 86400;
    auto want = ref::kepler(ref::up(o.rv), dt, o.mu);
    double R = ref::dnorm(o.rv[0]), V = ref::dnorm(o.rv[1]);
    auto es = err_scale(o.rv, dn(dt), o.mu, {tol * R, tol * V});
    auto got = k.eph(t1);
    c.ratio("later (position)", ref::dist(got[0], want[0]), es.r);
    c.ratio("later (velocity)", ref::dist(got[1], want[1]), es.v);
    c.label(tname(t));
    c.nontrivial();
}

PROP("K20", "inconsistent_elements_rejected", 20000, 200000, "always: elements that no orbit has")
{
    auto o = calm(c);
    epoch e0(c.real(-1000., 1000.));
    c.nontrivial();
    switch (c.integer(0, 2)) {
        case 0: {
            auto t = c.pick({kep3::KEP_F, kep3::KEP_M});
            auto el = elements_of(o, kep3::KEP_F);
            el[0] = -el[0];
            c.show("elements", el);
            c.check(throws<std::domain_error>([&]() { keplerian(e0, el, o.mu, "x", {-1., -1., -1.}, t); }), "a semi-major axis of the wrong sign is not refused with domain_error");
            break;
        }
        case 1: {
            auto h = calm(c, 1);
            auto el = elements_of(h, kep3::KEP_F);
            c.show("elements", el);
            c.check(throws<std::logic_error>([&]() { keplerian(e0, el, h.mu, "x", {-1., -1., -1.}, kep3::KEP_M); }), "a mean anomaly for a hyperbola is not refused");
            break;
        }
        default: {
            auto el = elements_of(o, kep3::KEP_F);
            c.check(throws<std::logic_error>([&]() { keplerian(e0, el, o.mu, "x", {-1., -1., -1.}, kep3::POSVEL); }), "elements of type POSVEL are not refused");
        }
    }
}

// ---------------------------------------------------------------------------------------------------------- jpl_lp
namespace
{
struct Jpl {
    const char *name;
    std::array<double, 6> el, dot; // a (AU), e, i, L, long. of perihelion, long. of node (deg); per century
    double mu, radius, safe;
};
// https://ssd.jpl.nasa.gov/planets/approx_pos.html, 1800 AD - 2050 AD.
const std::vector<Jpl> table{
    {"mercury", {0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593}, {0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081}, 2.2032e13, 2.44e6, 1.1},
    {"venus", {0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255}, {0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418}, 3.24859e14, 6.052e6, 1.1},
    {"earth", {1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0}, {0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0}, 3.986004418e14, 6.378e6, 1.1},
    {"mars", {1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891}, {0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343}, 4.2828e13, 3.397e6, 1.1},
    {"jupiter", {5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909}, {-0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106}, 1.26686534e17, 7.1492e7, 9.},
    {"saturn", {9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448}, {-0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794}, 3.7931187e16, 6.033e7, 1.1},
    {"uranus", {19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503}, {-0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589}, 5.793939e15, 2.5362e7, 1.1},
    {"neptune", {30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574}, {0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664}, 6.836529e15, 2.4622e7, 1.1}};
} // namespace

PROP("K21", "positions_of_the_planets", 60000, 1000000, "always: a date in 1800-2050")
{
    const auto &r = c.pickv(table);
    std::string name = r.name;
    for (auto &ch : name) {
        if (c.chance(0.2)) {
            ch = static_cast<char>(std::toupper(ch));
        }
    }
    c.show("planet", name);
    jpl_lp u(name);
    if (c.chance(0.2)) {
        u = through_archive(c, u, jpl_lp(c.chance(0.5) ? "mars" : "venus"));
        c.label("stored and loaded");
    }
    planet p(u);
    if (c.chance(0.2)) {
        p = through_archive(c, p);
    }
    double t = c.real(-73047.9, 18262.9);
    if (c.chance(0.05)) {
        t = c.pick({-73047.999, 18262.999, 0., 0.5});
    }
    c.show("mjd2000", t);
    c.nontrivial();
    const q deg = ref::qpi / 180, AU = 149597870700.0q, mu = kep3::MU_SUN;
    q T = (q(t) - 0.5q) / 36525;
    std::array<q, 6> el;
    for (std::size_t k = 0; k < 6; ++k) {
        el[k] = q(r.el[k]) + q(r.dot[k]) * T;
    }
    q a = el[0] * AU, e = el[1], i = el[2] * deg, W = el[5] * deg, w = (el[4] - el[5]) * deg, M = (el[3] - el[4]) * deg;
    q E = solve_kepler(M, e);
    q f = 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
    auto want = ref::from_elements(a * (1 - e * e), e, i, W, w, f, mu);
    // The mean longitude grows to thousands of turns: its rounding is the error.
    double tol = 16 * eps * (10 + std::abs(dn(el[3] * deg)));
    auto got = p.eph(t);
    same_state(c, "position of the planet", got, want, tol);
    c.check(u.eph(t) == got, "the planet and its object disagree");
    auto kf = p.elements(t);
    c.close("semi-major axis", kf[0], dn(a), 4 * eps * dn(a));
    c.close("eccentricity", kf[1], dn(e), 4 * eps);
    c.close("inclination", kf[2], dn(i), 4 * eps);
    c.ratio("node", ref::angdiff(kf[3], W), 8 * eps * 4);
    c.ratio("argument of perihelion", ref::angdiff(kf[4], w), 8 * eps * 8);
    c.ratio("true anomaly", ref::angdiff(kf[5], f), tol);
    orbit_of(c, "planet", p, t, got, dn(mu), false, tol + 64 * eps);
    c.check(p.get_name() == std::string(r.name) + " - jpl_lp", "the name is " + p.get_name());
    c.check(p.get_mu_central_body() == kep3::MU_SUN, "the central body is not the Sun");
    c.close("gravitational parameter", p.get_mu_self(), r.mu, 1e-3 * r.mu);
    c.close("radius", p.get_radius(), r.radius, 1e-3 * r.radius);
    c.close("safe radius", p.get_safe_radius(), r.safe * p.get_radius(), 1e-12 * p.get_radius());
    epoch ep(t);
    if (ep.mjd2000() > -73047.99) {
        c.check(p.eph(ep) == u.eph(ep.mjd2000()), "the ephemeris at an epoch is not that at its MJD2000");
    }
    c.label(r.name);
}

PROP("K21", "outside_the_validity", 20000, 200000, "always: a date or a name that is not covered")
{
    c.nontrivial();
    jpl_lp u(c.pickv(table).name);
    planet p(u);
    double t = c.chance(0.5) ? -73048. - c.logreal(1e-6, 1e7) : 18263. + c.logreal(1e-6, 1e7);
    c.show("mjd2000", t);
    c.check(throws<std::domain_error>([&]() { (void)p.eph(t); }), "a position outside 1800-2050 is not refused with domain_error");
    c.check(throws<std::domain_error>([&]() { (void)p.elements(t, c.pick({kep3::KEP_F, kep3::KEP_M, kep3::MEQ})); }), "elements outside 1800-2050 are not refused with domain_error");
    c.check(throws<std::domain_error>([&]() { (void)p.eph_v(std::vector<double>{0., t, 1.}); }), "a list with a date outside 1800-2050 is not refused with domain_error");
    std::string n = c.pick({"pluto", "sun", "", "earth ", "Moon", "mercuri", "jpl", "earth - jpl_lp"});
    c.check(throws<std::logic_error>([&]() { jpl_lp{n}; }), "'" + n + "' is accepted as a planet");
}

// ---------------------------------------------------------------------------------------------------------- fly-by
namespace
{
struct Flyby {
    v3 in, out;
    double mu, rp, V;
};
Flyby flyby(Case &c)
{
    Flyby o{};
    // mu/rp sets the speed scale; from almost no deflection to almost a full turn back.
    bool si = c.chance(0.5);
    o.mu = si ? c.logreal(1e12, 2e17) : c.logreal(1e-2, 1e2);
    o.rp = si ? c.logreal(1e6, 1e9) : c.logreal(1e-2, 1e2);
    double k = c.logreal(1e-4, 1e4); // rp*V^2/mu
    o.V = std::sqrt(k * o.mu / o.rp);
    auto d = direction(c);
    for (std::size_t j = 0; j < 3; ++j) {
        o.in[j] = o.V * d[j];
    }
    double ratio = c.chance(0.3) ? 1. : c.logreal(0.2, 5.);
    switch (c.integer(0, 4)) {
        case 0: // same or opposite direction
            ratio *= c.sign();
            for (std::size_t j = 0; j < 3; ++j) {
                o.out[j] = ratio * o.in[j];
            }
            c.label("parallel");
            break;
        default: {
            auto e = direction(c);
            if (c.chance(0.3)) {
                double s = c.logreal(1e-8, 1.);
                e = {d[0] + s * e[0], d[1] + s * e[1], d[2] + s * e[2]};
                double n = ref::dnorm(e);
                if (n < 1e-3) {
                    c.discard();
                }
                e = {e[0] / n, e[1] / n, e[2] / n};
            }
            for (std::size_t j = 0; j < 3; ++j) {
                o.out[j] = o.V * ratio * e[j];
            }
        }
    }
    return o;
}
q angle_between(const v3 &a, const v3 &b)
{
    auto x = ref::up(a), y = ref::up(b);
    return atan2q(ref::norm(ref::cross(x, y)), ref::dot(x, y));
}
// Rounding of an arc cosine: the error of the cosine over the sine, at most its square root.
double acos_tol(q ang)
{
    double s = std::abs(dn(sinq(ang)));
    return std::min(s > 0 ? 8 * eps / s : 1., 4 * std::sqrt(eps)) + 8 * eps;
}
} // namespace

PROP("K18", "constraints_and_cost", 200000, 4000000, "the deflection asked for is not feasible")
{
    auto o = flyby(c);
    c.show("in", o.in);
    c.show("out", o.out);
    c.show("mu", o.mu);
    c.show("safe radius", o.rp);
    auto in = ref::up(o.in), out = ref::up(o.out);
    q V2 = ref::dot(in, in), W2 = ref::dot(out, out), V = sqrtq(V2), W = sqrtq(W2);
    q ang = angle_between(o.in, o.out), dmax = 2 * asinq(1 / (1 + q(o.rp) * V2 / o.mu)), ex = ang - dmax;
    auto con = kep3::fb_con(o.in, o.out, o.mu, o.rp);
    c.close("speed constraint", con.first, dn(V2 - W2), 8 * eps * dn(V2 + W2));
    // The largest deflection, when it is almost half a turn, is an arc sine near one.
    double kk = dn(q(o.rp) * V2 / o.mu);
    double dtol = 16 * eps / std::sqrt(kk * (2 + kk)) + 8 * eps, atol = acos_tol(ang) + dtol;
    c.close("angle constraint", con.second, dn(ex), atol);
    double dv = kep3::fb_dv(o.in, o.out, o.mu, o.rp);
    // Reachable: only the speed differs. Otherwise the missing angle has to be turned too.
    q m = ex > 0 ? ex : 0;
    q want = sqrtq((V - W) * (V - W) + 4 * V * W * sinq(m / 2) * sinq(m / 2));
    double s = dn(V + W), w = dn(want);
    // The square root of a difference: eps*s^2/w or sqrt(eps)*s, and the angle.
    double tol = std::min(w > 0 ? 16 * eps * s * s / w : 1e300, 8 * std::sqrt(eps) * s) + 8 * eps * s + s * atol;
    if (dn(ex) < -2 * atol) { // within reach: the difference of the speeds, no angle and no cancellation of squares
        tol = 8 * eps * s;
        c.label("within reach");
    }
    c.close("manoeuvre", dv, w, tol);
    c.check(dv >= 0, "the manoeuvre is negative");
    std::array<double, 3> add{o.mu, o.rp * 0.7, o.rp};
    planet p(keplerian(epoch(0.), state{{{1., 0., 0.}, {0., 1., 0.}}}, 1., "fly-by", add));
    auto pc = kep3::fb_con(o.in, o.out, p);
    c.check(pc == con, "the constraints for a planet are not those for its parameter and safe radius");
    c.check(kep3::fb_dv(o.in, o.out, p) == dv, "the manoeuvre for a planet is not that for its parameter and safe radius");
    c.nontrivial(ex > 0);
}

PROP("K18", "unpowered", 200000, 4000000, "always: an actual deflection")
{
    auto o = flyby(c);
    v3 pla{};
    double P = o.V * c.logreal(0.1, 10.);
    auto d = direction(c);
    for (std::size_t j = 0; j < 3; ++j) {
        pla[j] = P * d[j];
    }
    v3 vin{o.in[0] + pla[0], o.in[1] + pla[1], o.in[2] + pla[2]};
    double beta = c.real(-2 * pi, 2 * pi);
    if (c.chance(0.1)) {
        beta = c.pick({0., pi / 2, pi, -pi / 2});
    }
    c.show("v_in", vin);
    c.show("v_pla", pla);
    c.show("rp", o.rp);
    c.show("mu", o.mu);
    c.show("beta", beta);
    auto rel = ref::sub(ref::up(vin), ref::up(pla));
    q V = ref::norm(rel);
    auto i = ref::scale(rel, 1 / V);
    auto cr = ref::cross(i, ref::up(pla));
    q sn = ref::norm(cr) / P;
    if (sn < 1e-4q) {
        c.discard(); // the plane of reference is not defined
    }
    auto j = ref::scale(cr, 1 / ref::norm(cr));
    auto k = ref::cross(i, j);
    q ecc = 1 + q(o.rp) / o.mu * V * V, del = 2 * asinq(1 / ecc);
    auto vout = kep3::fb_vout(vin, pla, o.rp, beta, o.mu);
    auto want = ref::add(ref::up(pla), ref::add(ref::scale(i, V * cosq(del)), ref::add(ref::scale(j, V * sinq(del) * cosq(q(beta))), ref::scale(k, V * sinq(del) * sinq(q(beta))))));
    double big = P + ref::dnorm(vin), v = dn(V);
    double kk = dn(ecc - 1);
    double dtol = 16 * eps / std::sqrt(kk * (2 + kk));
    // Rounding of the relative velocity (cancellation), the frame, the deflection.
    double tol = 16 * eps * big / dn(sn) + v * (dtol + 16 * eps / dn(sn) + 8 * eps * dn(asinq(1 / ecc)) * (1 + std::abs(beta)));
    tol += v * 2 * eps * big / v * (2 / std::sqrt(kk * (2 + kk))) * kk; // the deflection follows the relative speed
    c.ratio("velocity after the fly-by", ref::dist(vout, want), tol);
    auto rout = ref::sub(ref::up(vout), ref::up(pla));
    c.close("relative speed", dn(ref::norm(rout)), v, tol);
    // The constraints see a feasible fly-by at exactly this radius, and feasible/infeasible for smaller/larger ones.
    v3 ro = dn(rout), ri = dn(rel);
    auto con = kep3::fb_con(ri, ro, o.mu, o.rp);
    double at = tol / v + acos_tol(del) + dtol;
    c.close("speed constraint after the fly-by", con.first, 0., 4 * v * tol + 8 * eps * v * v);
    c.close("angle constraint after the fly-by", con.second, 0., 4 * at);
    auto safe = kep3::fb_con(ri, ro, o.mu, o.rp / 2), tight = kep3::fb_con(ri, ro, o.mu, o.rp * 2);
    c.check(safe.second <= con.second && tight.second >= con.second, "a smaller safe radius does not relax the angle constraint");
    c.nontrivial();
}
