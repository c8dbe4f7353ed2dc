// K29: arbitrary arguments. Nothing is asked of the results: under the sanitizers every call has to return or to throw a
// std::exception, whatever the numbers (zero, negative, tiny, huge, infinite, nan) and whatever the order of the calls.
#include <chrono>
#include <exception>
#include <sstream>
#include <string>
#include <vector>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>

#include "gen.hpp"

using pbt::Case;

namespace
{
struct Numbers {
    Case &c;
    int wild = 0;
    double dirt; // share of odd numbers in this case
    explicit Numbers(Case &cc) : c(cc), dirt(c.pick({0., 0.05, 0.3, 1.})) {}
    double odd()
    {
        ++wild;
        constexpr double inf = std::numeric_limits<double>::infinity();
        switch (c.integer(0, 5)) {
            case 0:
                return c.pick({0., -0., 1., -1., 2., 0.5});
            case 1:
                return c.sign() * c.pick({inf, std::nan(""), std::numeric_limits<double>::max(), std::numeric_limits<double>::min(),
                                          std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon()});
            case 2:
                return c.sign() * c.logreal(1e-300, 1e300);
            case 3:
                return c.sign() * c.logreal(1e6, 1e25);
            case 4:
                return c.sign() * static_cast<double>(c.integer(0, 4000000000L));
            default: {
                std::uint64_t b = c.u64();
                double d;
                std::memcpy(&d, &b, sizeof d);
                return d;
            }
        }
    }
    double real(double lo, double hi)
    {
        return c.chance(dirt) ? odd() : c.real(lo, hi);
    }
    double positive()
    {
        return c.chance(dirt) ? odd() : c.logreal(1e-2, 1e2);
    }
    template <std::size_t N>
    std::array<double, N> vec(double lo = -2., double hi = 2.)
    {
        std::array<double, N> v;
        for (auto &x : v) {
            x = real(lo, hi);
        }
        return v;
    }
    std::array<std::array<double, 3>, 2> state()
    {
        return {vec<3>(), vec<3>()};
    }
};
template <typename F>
void call(Case &c, F &&f)
{
    try {
        f();
    } catch (const std::bad_alloc &) {
        // Nothing here is that large.
        std::fprintf(stderr, "out of memory\n");
        std::abort();
    } catch (const std::exception &) {
        c.label("refused");
        return;
    } catch (const pbt::Failure &) {
        throw;
    } catch (...) {
        c.fail("something that is not a std::exception was thrown");
    }
    c.label("returned");
}
double sum; // results are used, so that memory checks see them
template <typename T>
void use(const T &x)
{
    if constexpr (requires { x.begin(); }) {
        for (const auto &y : x) {
            use(y);
        }
    } else if constexpr (requires { x.has_value(); }) {
        if (x.has_value()) {
            use(*x);
        }
    } else if constexpr (requires { x.first; }) {
        use(x.first);
        use(x.second);
    } else {
        sum += x > 0 ? 1 : 0;
    }
}
} // namespace

PROP("K29", "any_elements", 20000, 600000, "an odd number among the arguments")
{
    Numbers n(c);
    auto rv = n.state();
    auto e = n.vec<6>(-4., 4.);
    double mu = n.positive(), x = n.real(-10., 10.), ecc = n.real(0., 3.);
    bool retro = c.chance(0.5);
    c.show("state", rv), c.show("elements", e), c.show("mu", mu), c.show("anomaly", x), c.show("e", ecc);
    call(c, [&] { use(kep3::ic2par(rv, mu)); });
    call(c, [&] { use(kep3::par2ic(e, mu)); });
    call(c, [&] { use(kep3::ic2eq(rv, mu, retro)); });
    call(c, [&] { use(kep3::eq2ic(e, mu, retro)); });
    call(c, [&] { use(kep3::eq2par(e, retro)); });
    call(c, [&] { use(kep3::par2eq(e, retro)); });
    call(c, [&] { use(kep3::m2e(x, ecc) + kep3::e2m(x, ecc) + kep3::e2f(x, ecc) + kep3::f2e(x, ecc) + kep3::m2f(x, ecc) + kep3::f2m(x, ecc)); });
    call(c, [&] { use(kep3::n2h(x, ecc) + kep3::h2n(x, ecc) + kep3::h2f(x, ecc) + kep3::f2h(x, ecc) + kep3::n2f(x, ecc) + kep3::f2n(x, ecc)); });
    call(c, [&] { use(kep3::zeta2f(x, ecc) + kep3::f2zeta(x, ecc)); });
    c.nontrivial(n.wild > 0);
}
PROP("K29", "any_flight", 20000, 600000, "an odd number among the arguments")
{
    Numbers n(c);
    auto rv = n.state(), rw = n.state();
    double mu = n.positive(), tof = n.real(-10., 10.);
    std::vector<double> tofs;
    for (long i = c.integer(0, 4); i > 0; --i) {
        tofs.push_back(n.real(-10., 10.));
    }
    bool stm = c.chance(0.5);
    c.show("state", rv), c.show("tof", tof), c.show("tofs", tofs), c.show("mu", mu);
    call(c, [&] { use(kep3::propagate_lagrangian(rv, tof, mu, stm)); });
    call(c, [&] { use(kep3::propagate_lagrangian_v(rv, tofs, mu, stm)); });
    call(c, [&] { use(kep3::propagate_lagrangian_u(rv, tof, mu, stm)); });
    call(c, [&] { use(kep3::propagate_keplerian(rv, tof, mu, stm)); });
    call(c, [&] { use(kep3::propagate_stm_reynolds(rv, tof, mu, stm)); });
    call(c, [&] { use(kep3::stm_reynolds(rv, rw, tof, mu)); });
    c.nontrivial(n.wild > 0);
}
PROP("K29", "any_transfer", 20000, 600000, "an odd number among the arguments, or more than two solutions")
{
    Numbers n(c);
    auto r0 = n.vec<3>(), r1 = n.vec<3>(), v = n.vec<3>(), w = n.vec<3>();
    double mu = n.positive(), tof = c.chance(0.3) ? n.odd() : c.chance(0.1) ? c.real(60., 2000.) : n.real(0., 60.), rad = n.positive(), beta = n.real(-4., 4.);
    auto revs = static_cast<unsigned>(c.integer(0, c.chance(0.1) ? 300 : 30));
    bool cw = c.chance(0.5);
    c.show("r0", r0), c.show("r1", r1), c.show("tof", tof), c.show("mu", mu), c.show("cw", cw), c.show("revs", revs);
    c.show("v", v), c.show("w", w), c.show("radius", rad), c.show("beta", beta);
    call(c, [&] {
        kep3::lambert_problem l(r0, r1, tof, mu, cw, revs);
        use(l.get_v0()), use(l.get_v1()), use(l.get_x()), use(l.get_iters());
        c.check(l.get_v0().size() == 2ul * l.get_Nmax() + 1 && l.get_Nmax() <= revs, "wrong number of solutions");
        std::ostringstream s;
        s << l;
        c.nontrivial(l.get_Nmax() > 0);
    });
    call(c, [&] { use(kep3::fb_con(v, w, mu, rad)); });
    call(c, [&] { use(kep3::fb_dv(v, w, mu, rad)); });
    call(c, [&] { use(kep3::fb_vout(v, w, rad, beta, mu)); });
    c.nontrivial(n.wild > 0);
}
PROP("K29", "any_leg", 10000, 300000, "an odd number among the arguments, or a change after the construction")
{
    using kep3::leg::sims_flanagan;
    Numbers n(c);
    auto throttles = [&] {
        std::vector<double> t(static_cast<std::size_t>(c.chance(0.1) ? c.integer(0, 13) : 3 * c.integer(1, 5)));
        for (auto &x : t) {
            x = n.real(-1., 1.);
        }
        return t;
    };
    auto rvs = n.state(), rvf = n.state();
    double ms = n.positive(), mf = n.positive(), tof = n.real(0., 10.), mt = n.real(0., 1.), isp = n.real(0., 3.), mu = n.positive(),
           cut = n.real(0., 1.);
    auto th = throttles();
    c.show("rvs", rvs), c.show("rvf", rvf), c.show("throttles", th), c.show("ms", ms), c.show("mf", mf), c.show("tof", tof);
    c.show("max_thrust", mt), c.show("isp", isp), c.show("mu", mu), c.show("cut", cut);
    sims_flanagan leg;
    call(c, [&] { leg = sims_flanagan(rvs, ms, th, rvf, mf, tof, mt, isp, mu, cut); });
    long changes = c.integer(0, 4);
    for (long i = 0; i <= changes; ++i) {
        call(c, [&] { use(leg.compute_mismatch_constraints()); });
        call(c, [&] { use(leg.compute_throttle_constraints()); });
        call(c, [&] {
            auto [a, b, d] = leg.compute_mc_grad();
            use(a), use(b), use(d);
        });
        call(c, [&] { use(leg.compute_tc_grad()); });
        call(c, [&] {
            std::ostringstream s;
            s << leg;
        });
        if (i == changes) {
            break;
        }
        double x = n.real(-0.5, 1.5);
        auto t = throttles();
        long what = c.integer(0, 9);
        c.show("change", what), c.show("value", x);
        call(c, [&] {
            switch (what) {
                case 0:
                    leg.set_cut(x);
                    break;
                case 1:
                    leg.set_throttles(t);
                    break;
                case 2:
                    leg.set_throttles(t.begin(), t.end());
                    break;
                case 3:
                    leg.set_tof(x);
                    break;
                case 4:
                    leg.set_mu(x);
                    break;
                case 5:
                    leg.set_max_thrust(x);
                    break;
                case 6:
                    leg.set_isp(x);
                    break;
                case 7:
                    leg.set_ms(x);
                    break;
                case 8:
                    leg.set_rvs(n.state());
                    break;
                default:
                    leg.set(n.state(), n.positive(), t, n.state(), n.positive(), n.real(0., 1.), n.real(0., 1.), n.real(0., 1.), n.positive(), x);
            }
            c.nontrivial();
        });
    }
    c.nontrivial(n.wild > 0);
}
PROP("K29", "any_flown_leg", 3000, 30000, "an odd number or size among the arguments, or a change after the construction")
{
    using kep3::leg::sims_flanagan_hf;
    Numbers n(c);
    auto throttles = [&] {
        std::vector<double> t(static_cast<std::size_t>(c.chance(0.1) ? c.integer(0, 13) : 3 * c.integer(1, 5)));
        for (auto &x : t) {
            x = n.real(-1., 1.);
        }
        return t;
    };
    auto tolerance = [&] { return c.chance(0.1) ? n.odd() : c.pick({1e-16, 1e-10, 1e-5}); };
    auto rvms = n.vec<7>(0.5, 2.), rvmf = n.vec<7>(0.5, 2.);
    double tof = n.real(0., 3.), mt = n.real(0., 1.), isp = n.real(0., 3.), mu = n.positive(), cut = n.real(0., 1.), tol = tolerance();
    auto th = throttles();
    c.show("rvms", rvms), c.show("rvmf", rvmf), c.show("throttles", th), c.show("tof", tof);
    c.show("max_thrust", mt), c.show("isp", isp), c.show("mu", mu), c.show("cut", cut), c.show("tol", tol);
    sims_flanagan_hf leg;
    // Numbers that ask for an endless flight stop the case after some steps.
    heyoka::standin_steps_left() = 400;
    call(c, [&] { leg = sims_flanagan_hf(rvms, th, rvmf, tof, mt, isp, mu, cut, tol); });
    long changes = c.integer(0, 4);
    for (long i = 0; i <= changes; ++i) {
        heyoka::standin_steps_left() = 400;
        call(c, [&] { use(leg.compute_mismatch_constraints()); });
        call(c, [&] { use(leg.compute_throttle_constraints()); });
        call(c, [&] { use(leg.compute_constraints()); });
        call(c, [&] {
            auto [a, b, d] = leg.compute_mc_grad();
            use(a), use(b), use(d);
        });
        call(c, [&] { use(leg.compute_tc_grad()); });
        auto points = static_cast<unsigned>(c.integer(0, 5));
        c.show("points", points);
        call(c, [&] { use(leg.get_state_history(points)); });
        call(c, [&] {
            std::ostringstream s;
            s << leg;
        });
        if (i == changes) {
            break;
        }
        double x = n.real(-0.5, 1.5);
        auto t = throttles();
        long what = c.integer(0, 12);
        c.show("change", what), c.show("value", x), c.show("with", t);
        call(c, [&] {
            switch (what) {
                case 0:
                    leg.set_cut(x);
                    break;
                case 1:
                    leg.set_throttles(t);
                    break;
                case 2:
                    leg.set_throttles(t.begin(), t.end());
                    break;
                case 3:
                    leg.set_tof(x);
                    break;
                case 4:
                    leg.set_mu(x);
                    break;
                case 5:
                    leg.set_max_thrust(x);
                    break;
                case 6:
                    leg.set_isp(x);
                    break;
                case 7:
                    leg.set_ms(x);
                    break;
                case 8:
                    leg.set_rvs(n.state());
                    break;
                case 9:
                    leg.set_tol(tolerance());
                    break;
                case 10:
                    leg.set(n.vec<7>(), t, n.vec<7>(), x);
                    break;
                case 11: {
                    // as many numbers as are asked for, or not
                    long size = c.chance(0.5) ? 15 + 3 * static_cast<long>(leg.get_nseg()) : c.integer(0, 40);
                    std::vector<double> y(static_cast<std::size_t>(size));
                    for (auto &z : y) {
                        z = n.real(0.1, 1.5);
                    }
                    c.show("chromosome", y);
                    c.nontrivial();
                    use(leg.set_and_compute_constraints(y));
                    break;
                }
                default:
                    leg.set(n.state(), n.positive(), t, n.state(), n.positive(), n.real(0., 1.), n.real(0., 1.), n.real(0., 1.), n.positive(), x, tolerance());
            }
            c.nontrivial();
        });
    }
    heyoka::standin_steps_left() = std::numeric_limits<std::size_t>::max();
    c.nontrivial(n.wild > 0);
}

PROP("K29", "any_integration", 2000, 20000, "an odd number among the arguments")
{
    Numbers n(c);
    auto tolerance = [&] { return c.chance(0.2) ? n.odd() : c.pick({1e-16, 1e-10, 1e-5}); };
    double mu = n.positive(), veff = n.positive(), tol = tolerance();
    c.show("mu", mu), c.show("veff", veff), c.show("tol", tol);
    std::optional<kep3::stark_problem> s;
    call(c, [&] { s.emplace(mu, veff, tol); });
    for (long i = c.integer(1, 4); s && i > 0; --i) {
        heyoka::standin_steps_left() = 400;
        auto x = n.vec<7>(0.3, 2.);
        auto u = n.vec<3>(-0.1, 0.1);
        double tof = n.real(-2., 2.), value = n.positive();
        long what = c.integer(0, 4);
        c.show("what", what), c.show("state", x), c.show("thrust", u), c.show("tof", tof), c.show("value", value);
        call(c, [&] {
            switch (what) {
                case 0:
                    use(s->propagate(x, u, tof));
                    break;
                case 1: {
                    auto [a, b, d] = s->propagate_var(x, u, tof);
                    use(a), use(b), use(d);
                    break;
                }
                case 2:
                    s->set_mu(value);
                    break;
                case 3:
                    s->set_veff(value);
                    break;
                default: {
                    std::ostringstream o;
                    o << *s;
                }
            }
        });
    }
    heyoka::standin_steps_left() = std::numeric_limits<std::size_t>::max();
    tol = tolerance();
    long which = c.integer(0, 3);
    c.show("which", which), c.show("tol", tol);
    call(c, [&] { use(which == 0 ? kep3::ta::get_ta_stark(tol).get_state() : which == 1 ? kep3::ta::get_ta_stark_var(tol).get_state() : which == 2 ? kep3::ta::get_ta_cr3bp(tol).get_state() : kep3::ta::get_ta_cr3bp_var(tol).get_state()); });
    c.nontrivial(n.wild > 0);
}

PROP("K29", "any_epoch", 40000, 1000000, "an odd number or a malformed string")
{
    Numbers n(c);
    using kep3::epoch;
    double d = n.real(-1e5, 1e5);
    auto type = c.pick({epoch::julian_type::MJD2000, epoch::julian_type::MJD, epoch::julian_type::JD});
    c.show("days", d);
    c.show("type", static_cast<int>(type));
    call(c, [&] {
        epoch e(d, type);
        use(e.mjd2000() + e.mjd() + e.jd());
        c.check(!(std::abs(d) > 1e9), "days that no epoch can hold were accepted");
    });
    std::string s;
    static const std::string base = "1980-10-17T11:36:21.121841";
    static const std::vector<std::string::size_type> lens{7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};
    s = base.substr(0, c.chance(0.8) ? c.pickv(lens) : static_cast<std::size_t>(c.integer(0, 26)));
    if (c.chance(0.1)) {
        s += std::string(static_cast<std::size_t>(c.integer(0, 40)), '1');
    }
    for (long i = c.integer(0, 4); i > 0 && !s.empty(); --i) {
        s[static_cast<std::size_t>(c.integer(0, static_cast<long>(s.size()) - 1))]
            = c.chance(0.5) ? static_cast<char>('0' + c.integer(0, 9)) : static_cast<char>(c.integer(0, 255));
        n.wild++;
    }
    c.show("string", s);
    call(c, [&] { use(epoch(s).mjd2000()); });
    auto num = [&] { return static_cast<int>(c.chance(n.dirt) ? static_cast<std::int32_t>(c.u64() >> 32) : c.integer(-5, 70)); };
    int y = num() + (c.chance(0.5) ? 1980 : 0), mo = num(), da = num(), h = num(), mi = num(), se = num(), ms = num(), us = num();
    c.show("components", std::vector<int>{y, mo, da, h, mi, se, ms, us});
    call(c, [&] { use(epoch(y, static_cast<unsigned>(mo), static_cast<unsigned>(da), h, mi, se, ms, us).mjd2000()); });
    c.nontrivial(n.wild > 0);
}
PROP("K29", "any_planet", 10000, 300000, "an odd number among the arguments")
{
    Numbers n(c);
    using kep3::elements_type;
    auto rv = n.state();
    auto el = n.vec<6>(-1., 3.);
    double mu = n.positive(), t = n.real(-1e5, 1e5), ref = n.c.real(-1e4, 1e4);
    auto par = n.vec<3>(-1., 2.);
    auto kind = c.pick({elements_type::KEP_M, elements_type::KEP_F, elements_type::MEQ, elements_type::MEQ_R, elements_type::POSVEL});
    auto ask = c.pick({elements_type::KEP_M, elements_type::KEP_F, elements_type::MEQ, elements_type::MEQ_R, elements_type::POSVEL});
    std::vector<double> ts(static_cast<std::size_t>(c.integer(0, 3)), t);
    c.show("state", rv), c.show("elements", el), c.show("mu", mu), c.show("t", t), c.show("params", par);
    c.show("kind", static_cast<int>(kind)), c.show("asked", static_cast<int>(ask));
    auto ask_all = [&](const kep3::planet &p) {
        call(c, [&] { use(p.eph(t)); });
        call(c, [&] { use(p.eph_v(ts)); });
        call(c, [&] { use(p.period(t)); });
        call(c, [&] { use(p.elements(t, ask)); });
        call(c, [&] { use(p.get_mu_central_body() + p.get_mu_self() + p.get_radius() + p.get_safe_radius()); });
        call(c, [&] {
            std::ostringstream s;
            s << p;
        });
    };
    call(c, [&] { ask_all(kep3::planet{kep3::udpla::keplerian(kep3::epoch(ref), rv, mu, "x", par)}); });
    call(c, [&] { ask_all(kep3::planet{kep3::udpla::keplerian(kep3::epoch(ref), el, mu, "x", par, kind)}); });
    if (c.chance(0.3)) {
        static const std::vector<std::string> names{"mercury", "venus", "EARTH", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto", ""};
        auto name = c.pickv(names);
        call(c, [&] { ask_all(kep3::planet{kep3::udpla::jpl_lp(name)}); });
    }
    c.nontrivial(n.wild > 0);
}
