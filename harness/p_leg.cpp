// K12 - K15: the Sims-Flanagan leg.
#include <sstream>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>

#include <kep3/leg/sims_flanagan.hpp>

#include "leg.hpp"

using namespace gen;
using leg::Leg;
using ref::dn;
using ref::q;

namespace
{
kep3::leg::sims_flanagan build(const Leg &l)
{
    return {l.rvs, l.ms, l.th, l.rvf, l.mf, l.tof, l.thrust, l.isp, l.mu, l.cut};
}
bool same(const kep3::leg::sims_flanagan &a, const Leg &l)
{
    return a.get_rvs() == l.rvs && a.get_rvf() == l.rvf && a.get_ms() == l.ms && a.get_mf() == l.mf && a.get_throttles() == l.th && a.get_tof() == l.tof
           && a.get_max_thrust() == l.thrust && a.get_isp() == l.isp && a.get_mu() == l.mu && a.get_cut() == l.cut && a.get_nseg() == l.nseg()
           && a.get_nseg_fwd() == l.fwd() && a.get_nseg_bck() == l.nseg() - l.fwd();
}
} // namespace

PROP("K12", "mismatch_is_the_gap_of_the_model", 8000, 100000, "a throttle is non zero and both halves have segments")
{
    auto l = leg::make(c, c.chance(0.01) ? 60 : 8);
    leg::show(c, l);
    auto ql = leg::up(l);
    auto f = leg::half(ql, true, true), b = leg::half(ql, false, true);
    if (f.wild || b.wild) {
        c.discard();
    }
    auto got = build(l).compute_mismatch_constraints();
    auto want = leg::mismatch(ql);
    ErrScale e{f.e.r + b.e.r, f.e.v + b.e.v};
    e.r += 8 * eps * (ref::dnorm(l.rvs[0]) + ref::dnorm(l.rvf[0]));
    e.v += 8 * eps * (ref::dnorm(l.rvs[1]) + ref::dnorm(l.rvf[1]));
    for (std::size_t i = 0; i < 3; ++i) {
        c.close("position mismatch", got[i], dn(want[i]), e.r);
        c.close("velocity mismatch", got[i + 3], dn(want[i + 3]), e.v);
    }
    c.close("mass mismatch", got[6], dn(want[6]), f.em + b.em + 8 * eps * (l.ms + l.mf + dn(b.m)));
    bool thrusting = false;
    for (double t : l.th) {
        thrusting = thrusting || (t != 0 && l.thrust != 0);
    }
    c.label(std::to_string(l.nseg()) + " segments");
    c.label(l.fwd() == 0 ? "backward only" : l.fwd() == l.nseg() ? "forward only" : "both halves");
    c.nontrivial(thrusting && l.fwd() != 0 && l.fwd() != l.nseg());
}

PROP("K12", "feasible_legs_close", 3000, 30000, "the two halves meet after at least two impulses")
{
    // The arrival state is the end of the forward flight of the whole leg: no mismatch wherever the cut is. This is for
    // a constant mass (huge specific impulse): an impulse is thrust/mass with the mass at its upstream end, that is
    // before it in the forward half and after it in the backward half.
    auto l = leg::make(c, c.chance(0.01) ? 60 : 8);
    l.isp = 1e30;
    double cut = l.cut;
    l.cut = 1.;
    auto end = leg::half(leg::up(l), true, true);
    if (end.wild) {
        c.discard();
    }
    l.rvf = ref::dn(end.rv);
    l.mf = dn(end.m);
    l.cut = cut;
    leg::show(c, l);
    auto f = leg::half(leg::up(l), true, true), b = leg::half(leg::up(l), false, true);
    if (f.wild || b.wild) {
        c.discard();
    }
    auto got = build(l).compute_mismatch_constraints();
    // Rounding of the arrival state is carried back to the cut.
    double r = f.e.r + b.e.r, v = f.e.v + b.e.v, m = f.em + b.em + 8 * eps * (l.ms + dn(b.m));
    r += 8 * eps * ref::dnorm(l.rvf[0]) + 8 * eps * ref::dnorm(l.rvs[0]);
    v += 8 * eps * ref::dnorm(l.rvf[1]) + 8 * eps * ref::dnorm(l.rvs[1]);
    for (std::size_t i = 0; i < 3; ++i) {
        c.close("feasible leg: position", got[i], 0., 4 * r);
        c.close("feasible leg: velocity", got[i + 3], 0., 4 * v);
    }
    c.close("feasible leg: mass", got[6], 0., 4 * m);
    c.label(std::to_string(l.nseg()) + " segments");
    c.nontrivial(l.nseg() >= 2);
}

PROP("K12", "without_thrust_the_cut_is_irrelevant", 3000, 30000, "two different cuts")
{
    auto l = leg::make(c, c.chance(0.01) ? 60 : 8);
    if (c.chance(0.5)) {
        l.thrust = 0;
    } else {
        std::fill(l.th.begin(), l.th.end(), 0.);
    }
    l.cut = 1.;
    leg::show(c, l);
    // Ballistic: the forward leg is the propagated departure state less the arrival state.
    auto got = build(l).compute_mismatch_constraints();
    auto e = leg::half(leg::up(l), true, true);
    if (e.wild) {
        c.discard();
    }
    auto want = ref::kepler(l.rvs, l.tof, l.mu);
    for (std::size_t i = 0; i < 3; ++i) {
        c.close("ballistic position", got[i], dn(want[0][i] - q(l.rvf[0][i])), e.e.r + 8 * eps * ref::dnorm(l.rvf[0]));
        c.close("ballistic velocity", got[i + 3], dn(want[1][i] - q(l.rvf[1][i])), e.e.v + 8 * eps * ref::dnorm(l.rvf[1]));
    }
    c.close("ballistic mass", got[6], l.ms - l.mf, 8 * eps * l.ms);
    l.cut = 0.;
    auto e2 = leg::half(leg::up(l), false, true);
    if (e2.wild) {
        c.discard();
    }
    auto got2 = build(l).compute_mismatch_constraints();
    auto back = ref::kepler(l.rvf, -l.tof, l.mu);
    for (std::size_t i = 0; i < 3; ++i) {
        c.close("ballistic position, backward", got2[i], dn(q(l.rvs[0][i]) - back[0][i]), e2.e.r + 8 * eps * ref::dnorm(l.rvs[0]));
        c.close("ballistic velocity, backward", got2[i + 3], dn(q(l.rvs[1][i]) - back[1][i]), e2.e.v + 8 * eps * ref::dnorm(l.rvs[1]));
    }
    c.close("ballistic mass, backward", got2[6], l.ms - l.mf, 8 * eps * l.ms);
    c.nontrivial(true);
}

PROP("K13", "gradients_are_the_derivatives_of_the_mismatch", 3000, 50000, "a throttle is non zero")
{
    auto l = leg::make(c, 6);
    leg::show(c, l);
    auto ql = leg::up(l);
    auto f = leg::half(ql, true, true), b = leg::half(ql, false, true);
    if (f.wild || b.wild) {
        c.discard();
    }
    auto [gs, gf, gt] = build(l).compute_mc_grad();
    std::size_t n = l.th.size();
    c.check(gt.size() == 7 * (n + 1), "the gradient with respect to throttles and time has the wrong size");
    // Units in which every entry is comparable.
    double L = std::max(ref::dnorm(l.rvs[0]), ref::dnorm(l.rvf[0])), V = std::max({ref::dnorm(l.rvs[1]), ref::dnorm(l.rvf[1]), std::sqrt(l.mu / L)});
    auto row = [&](std::size_t i) { return i < 3 ? L : i < 6 ? V : l.ms; };
    auto derivative = [&](const std::function<void(leg::QLeg &, q)> &bump, q h) {
        std::array<leg::q7, 4> y;
        int k = 0;
        for (int m : {-2, -1, 1, 2}) {
            auto x = ql;
            bump(x, h * m);
            y[static_cast<std::size_t>(k++)] = leg::mismatch(x);
        }
        leg::q7 d;
        for (std::size_t i = 0; i < 7; ++i) {
            d[i] = (8 * (y[2][i] - y[1][i]) - (y[3][i] - y[0][i])) / (12 * h);
        }
        return d;
    };
    struct Col {
        leg::q7 want;
        std::array<double, 7> got;
        double unit;
        std::string name;
    };
    std::vector<Col> cols;
    for (std::size_t j = 0; j < 7; ++j) {
        for (int end = 0; end < 2; ++end) {
            double u = row(j);
            auto d = derivative(
                [&](leg::QLeg &x, q h) {
                    if (j == 6) {
                        (end == 0 ? x.ms : x.mf) += h;
                    } else {
                        (end == 0 ? x.rvs : x.rvf)[j / 3][j % 3] += h;
                    }
                },
                q(u) * 1e-9q);
            Col k{d, {}, u, end == 0 ? "gradient, departure state" : "gradient, arrival state"};
            for (std::size_t i = 0; i < 7; ++i) {
                k.got[i] = (end == 0 ? gs : gf)[7 * i + j];
            }
            cols.push_back(k);
        }
    }
    bool thrusting = false;
    for (std::size_t j = 0; j <= n; ++j) {
        bool smooth = true;
        Col k{{}, {}, j < n ? 1. : l.tof, j < n ? "gradient, throttles" : "gradient, time of flight"};
        if (j < n) {
            std::size_t s = j - j % 3;
            double u = std::sqrt(l.th[s] * l.th[s] + l.th[s + 1] * l.th[s + 1] + l.th[s + 2] * l.th[s + 2]);
            thrusting = thrusting || u > 0;
            smooth = u > 0;
            // The norm of the throttle is not smooth at zero: the step stays well below it.
            q h = smooth ? q(u) * 1e-9q : 1e-9q;
            k.want = derivative([&](leg::QLeg &x, q d) { x.th[j] += d; }, h);
            if (!smooth) {
                // Even part (mass) has no derivative; position and velocity depend on it only to second order.
                k.want[6] = 0;
            }
        } else {
            k.want = derivative([&](leg::QLeg &x, q d) { x.tof += d; }, q(l.tof) * 1e-9q);
        }
        for (std::size_t i = 0; i < 7; ++i) {
            k.got[i] = gt[(n + 1) * i + j];
        }
        cols.push_back(k);
        if (!smooth) {
            c.label("zero throttle");
        }
    }
    std::array<double, 3> g{1, 1, 1};
    for (const auto &k : cols) {
        for (std::size_t i = 0; i < 7; ++i) {
            g[i / 3] = std::max(g[i / 3], std::abs(dn(k.want[i])) * k.unit / row(i));
        }
    }
    // Rounding, amplified by the flow: the error of a state at the cut in units of its own rounding.
    double amp = 1 + (f.e.r + b.e.r) / (eps * L) + (f.e.v + b.e.v) / (eps * V);
    for (const auto &k : cols) {
        for (std::size_t i = 0; i < 7; ++i) {
            c.close(k.name + (i < 3 ? " (position)" : i < 6 ? " (velocity)" : " (mass)"), k.got[i] * k.unit / row(i), dn(k.want[i]) * k.unit / row(i), 2e-15 * g[i / 3] * amp);
        }
    }
    c.label(std::to_string(l.nseg()) + " segments");
    c.nontrivial(thrusting);
}

PROP("K14", "throttle_constraints", 100000, 2000000, "the throttles are not all equal")
{
    Leg l;
    l.rvs = {{{1, 0, 0}, {0, 1, 0}}};
    l.rvf = {{{0, 1, 0}, {-1, 0, 0}}};
    auto n = static_cast<std::size_t>(c.chance(0.002) ? c.integer(31, 400) : c.integer(1, 30));
    for (std::size_t i = 0; i < 3 * n; ++i) {
        l.th.push_back(c.integer(0, 5) == 0 ? c.pick({0., 1., -1.}) : c.sign() * c.logreal(1e-3, 10.));
    }
    l.cut = c.unit();
    leg::show(c, l);
    auto s = build(l);
    auto tc = s.compute_throttle_constraints();
    auto g = s.compute_tc_grad();
    c.check(tc.size() == n, "one constraint per segment expected");
    c.check(g.size() == 3 * n * n, "the gradient has the wrong size");
    for (std::size_t i = 0; i < n; ++i) {
        double u2 = 0;
        for (std::size_t k = 0; k < 3; ++k) {
            u2 += l.th[3 * i + k] * l.th[3 * i + k];
        }
        c.close("constraint", tc[i], u2 - 1, 4 * eps * (u2 + 1));
        for (std::size_t j = 0; j < 3 * n; ++j) {
            c.close("gradient", g[i * 3 * n + j], j / 3 == i ? 2 * l.th[j] : 0., 4 * eps * std::abs(l.th[j]));
        }
    }
    c.nontrivial(n >= 2);
}

namespace
{
enum class Kind { good, domain, logic };
// Runs f and reports what it threw.
template <typename F>
Kind outcome(F &&f)
{
    try {
        f();
    } catch (const std::domain_error &) { // a logic_error too
        return Kind::domain;
    } catch (const std::logic_error &) {
        return Kind::logic;
    }
    return Kind::good;
}
double quantity(Case &c, bool &bad, double lo_ok)
{
    bad = false;
    switch (c.integer(0, 7)) {
        case 0:
            bad = true;
            return -c.logreal(1e-12, 1e3);
        case 1:
            return lo_ok;
        default:
            return c.logreal(1e-2, 10.);
    }
}
std::vector<double> throttles(Case &c, bool &bad)
{
    auto n = static_cast<std::size_t>(3 * c.integer(0, 6));
    if (c.chance(0.15)) {
        n += static_cast<std::size_t>(c.integer(1, 2));
    }
    bad = n == 0 || n % 3 != 0;
    std::vector<double> t;
    for (std::size_t i = 0; i < n; ++i) {
        t.push_back(c.real(-1., 1.));
    }
    return t;
}
state near_circle(Case &c)
{
    auto d = angle(c);
    double e = 0.2;
    return {{{std::cos(d) + c.real(-e, e), std::sin(d) + c.real(-e, e), c.real(-e, e)}, {-std::sin(d) + c.real(-e, e), std::cos(d) + c.real(-e, e), c.real(-e, e)}}};
}
double cutv(Case &c, bool &bad)
{
    bad = false;
    switch (c.integer(0, 6)) {
        case 0:
            bad = true;
            return c.chance(0.5) ? -c.logreal(1e-15, 1.) : 1 + c.logreal(1e-15, 1.);
        case 1:
            return c.pick({0., 1., 0.5, 1. / 3});
        default:
            return c.unit();
    }
}
void compare_outputs(Case &c, const kep3::leg::sims_flanagan &a, const kep3::leg::sims_flanagan &b, const std::string &what)
{
    auto eq = [&](const auto &x, const auto &y, const char *q) {
        c.check(x.size() == y.size(), what + ": " + q + " has another size");
        double m = 1e-12;
        for (std::size_t i = 0; i < x.size(); ++i) {
            m = std::max(m, std::abs(x[i]));
        }
        for (std::size_t i = 0; i < x.size(); ++i) {
            c.check((std::isnan(x[i]) && std::isnan(y[i])) || x[i] == y[i] || std::abs(x[i] - y[i]) <= 1e-9 * m, what + ": " + q + " differs from that of a fresh leg");
        }
    };
    eq(a.compute_mismatch_constraints(), b.compute_mismatch_constraints(), "mismatch");
    eq(a.compute_throttle_constraints(), b.compute_throttle_constraints(), "throttle constraints");
    eq(a.compute_tc_grad(), b.compute_tc_grad(), "throttle gradient");
    auto [a1, a2, a3] = a.compute_mc_grad();
    auto [b1, b2, b3] = b.compute_mc_grad();
    eq(a1, b1, "departure gradient");
    eq(a2, b2, "arrival gradient");
    eq(a3, b3, "throttle and time gradient");
}
} // namespace

PROP("K15", "any_history_of_setters", 20000, 400000, "at least three accepted changes, one of them of the number of segments or the cut")
{
    Leg m; // what the leg must be
    m.rvs = {{{1, 0, 0}, {0, 1, 0}}};
    m.rvf = {{{0, 1, 0}, {-1, 0, 0}}};
    m.th = {0, 0, 0, 0, 0, 0};
    m.tof = 1.5707963267948966;
    kep3::leg::sims_flanagan s;
    c.check(same(s, m), "the default leg is not the documented one");
    int steps = static_cast<int>(c.integer(1, 14)), accepted = 0;
    bool resized = false;
    std::string log;
    for (int k = 0; k < steps; ++k) {
        Leg t = m;
        bool bad = false, bad_th = false;
        Kind want = Kind::good, got = Kind::good;
        long op = c.integer(0, 15);
        std::string name;
        switch (op) {
            case 0:
                t.tof = quantity(c, bad, 0.);
                name = "set_tof";
                got = outcome([&]() { s.set_tof(t.tof); });
                break;
            case 1:
                t.rvs = near_circle(c);
                name = "set_rvs";
                got = outcome([&]() { s.set_rvs(t.rvs); });
                break;
            case 2:
                t.ms = c.logreal(0.5, 10.);
                name = "set_ms";
                got = outcome([&]() { s.set_ms(t.ms); });
                break;
            case 3:
            case 4:
                t.th = throttles(c, bad_th);
                name = "set_throttles";
                got = outcome([&]() { s.set_throttles(t.th); });
                break;
            case 5: {
                auto pool = throttles(c, bad_th);
                auto a = c.integer(0, static_cast<long>(pool.size())), b = c.integer(0, static_cast<long>(pool.size()));
                bad_th = b - a <= 0 || (b - a) % 3 != 0;
                name = "set_throttles(iterators)";
                if (!bad_th) {
                    t.th.assign(pool.begin() + a, pool.begin() + b);
                }
                got = outcome([&]() { s.set_throttles(pool.cbegin() + a, pool.cbegin() + b); });
                break;
            }
            case 6:
                t.rvf = near_circle(c);
                name = "set_rvf";
                got = outcome([&]() { s.set_rvf(t.rvf); });
                break;
            case 7:
                t.mf = c.logreal(0.5, 10.);
                name = "set_mf";
                got = outcome([&]() { s.set_mf(t.mf); });
                break;
            case 8:
                t.thrust = quantity(c, bad, 0.);
                name = "set_max_thrust";
                got = outcome([&]() { s.set_max_thrust(t.thrust); });
                break;
            case 9:
                t.isp = quantity(c, bad, 1.);
                name = "set_isp";
                got = outcome([&]() { s.set_isp(t.isp); });
                break;
            case 10:
                t.mu = quantity(c, bad, 1.);
                name = "set_mu";
                got = outcome([&]() { s.set_mu(t.mu); });
                break;
            case 11:
                t.cut = cutv(c, bad);
                name = "set_cut";
                got = outcome([&]() { s.set_cut(t.cut); });
                break;
            case 12:
            case 13: {
                bool b1, b2, b3, b4, b5;
                t.rvs = near_circle(c), t.rvf = near_circle(c);
                t.ms = c.logreal(0.5, 10.), t.mf = c.logreal(0.5, 10.);
                t.th = throttles(c, bad_th);
                t.tof = quantity(c, b1, 0.);
                t.thrust = quantity(c, b2, 0.);
                t.isp = quantity(c, b3, 1.);
                t.mu = quantity(c, b4, 1.);
                t.cut = cutv(c, b5);
                if (c.chance(0.6)) { // all good
                    t.tof = std::abs(t.tof), t.thrust = std::abs(t.thrust), t.isp = std::abs(t.isp) + 0.1, t.mu = std::abs(t.mu) + 0.1;
                    t.cut = std::min(1., std::max(0., t.cut));
                    b1 = b2 = b3 = b4 = b5 = false;
                }
                bad = b1 || b2 || b3 || b4 || b5;
                if (op == 12) {
                    name = "set";
                    got = outcome([&]() { s.set(t.rvs, t.ms, t.th, t.rvf, t.mf, t.tof, t.thrust, t.isp, t.mu, t.cut); });
                } else {
                    name = "construct and assign";
                    got = outcome([&]() { s = build(t); });
                }
                break;
            }
            default: {
                name = "store and load";
                if (c.chance(0.5)) {
                    std::stringstream ss;
                    {
                        boost::archive::binary_oarchive a(ss);
                        a << s;
                    }
                    kep3::leg::sims_flanagan z;
                    if (c.chance(0.5)) {
                        z.set_throttles(std::vector<double>(15, 0.5));
                        z.set_cut(0.1);
                        z.set_mu(3.);
                    }
                    {
                        boost::archive::binary_iarchive a(ss);
                        a >> z;
                    }
                    s = z;
                } else {
                    std::stringstream ss;
                    {
                        boost::archive::text_oarchive a(ss);
                        a << s;
                    }
                    kep3::leg::sims_flanagan z;
                    {
                        boost::archive::text_iarchive a(ss);
                        a >> z;
                    }
                    s = z;
                }
                accepted -= 1;
            }
        }
        log += (log.empty() ? "" : " ") + name;
        // An ill-sized throttle vector is a logic_error, a quantity out of its range a domain_error.
        bool reject = bad || bad_th;
        want = !reject ? Kind::good : Kind::domain;
        if (want == Kind::good) {
            c.check(got == Kind::good, name + " rejected valid arguments");
            resized = resized || t.th.size() != m.th.size() || t.cut != m.cut;
            m = t;
            ++accepted;
        } else {
            c.check(got != Kind::good, name + " accepted invalid arguments");
            c.check(bad ? (bad_th || got == Kind::domain) : got == Kind::logic, name + " rejected the arguments with the wrong kind of error");
        }
        c.check(same(s, m), "after " + name + (reject ? " (rejected)" : "") + " the getters do not show the values set");
    }
    c.show("history", log);
    leg::show(c, m);
    // Every result is that of a leg built at once.
    auto fresh = build(m);
    compare_outputs(c, s, fresh, "after " + log);
    std::ostringstream a, b;
    a << s;
    b << fresh;
    c.check(a.str() == b.str(), "the printed form differs from that of a fresh leg");
    c.check(a.str().find("Number of segments: " + std::to_string(m.nseg()) + "\n") != std::string::npos
                && a.str().find("Number of fwd segments: " + std::to_string(m.fwd()) + "\n") != std::string::npos
                && a.str().find("Number of bck segments: " + std::to_string(m.nseg() - m.fwd()) + "\n") != std::string::npos,
            "the printed form does not state the number of segments");
    c.label(std::to_string(std::min(accepted, 10)) + " accepted changes");
    c.nontrivial(accepted >= 3 && resized);
}
