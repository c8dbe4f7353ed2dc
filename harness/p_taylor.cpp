// K22 - K26: numerical integration (heyoka's integrators, replaced by shim/heyoka/standin.hpp), the Stark problem and
// the high-fidelity leg.
#include <set>
#include <sstream>
#include <stdexcept>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>

#include "leg.hpp"
#include "prop.hpp"
#include "tref.hpp"

using namespace gen;
using heyoka::taylor_adaptive;
using heyoka::taylor_outcome;
using ref::dn;
using ref::q;
using a3 = std::array<double, 3>;
using a7 = std::array<double, 7>;
using ta_t = taylor_adaptive<double>;

namespace
{
template <typename E, typename F>
bool throws(F &&f)
{
    try {
        f();
    } catch (const E &) {
        return true;
    } catch (...) {
    }
    return false;
}
template <typename A>
std::vector<double> vec(const A &a)
{
    return std::vector<double>(a.begin(), a.end());
}
double tolerance(Case &c)
{
    return c.pick({1e-16, 1e-16, 1e-15, 1e-14, 1e-13, 1e-12});
}

// A flight under constant thrust.
struct Arc {
    a7 x{};
    a3 u{};
    double mu = 1, veff = 1, t = 1;
    double L = 1; // unit of length
    bool thrusting = false;
};
// Scales of position, velocity and mass at which relative errors are expressed.
struct Scales {
    double r, v, m;
    [[nodiscard]] double of(std::size_t i) const
    {
        return i < 3 ? r : i < 6 ? v : m;
    }
};
double mass(Case &c, const Orbit &o)
{
    // Of the order of the other numbers in the same units: the integrator looks at the largest of them all.
    if (o.mu > 1e12) {
        return c.logreal(1e2, 1e4);
    }
    return o.L * c.logreal(0.03, 1.);
}
double norm3(const double *p)
{
    return std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
}
Arc arc(Case &c, double max_turns, bool zero_thrust)
{
    Arc a;
    auto o = orbit(c, Conic::any, 0.15, 0., 2.5);
    a.mu = o.mu;
    a.L = o.L;
    for (std::size_t i = 0; i < 3; ++i) {
        a.x[i] = o.rv[0][i];
        a.x[i + 3] = o.rv[1][i];
    }
    a.x[6] = mass(c, o);
    double turns = c.chance(0.3) ? c.logreal(1e-3, max_turns) : c.real(0., max_turns);
    a.t = c.sign() * 2 * pi * turns / o.n();
    double R = norm3(a.x.data());
    double g = o.mu / R / R * c.logreal(1e-6, 0.2); // thrust acceleration
    a.thrusting = !(zero_thrust && c.chance(0.15));
    auto d = direction(c);
    for (std::size_t i = 0; i < 3; ++i) {
        a.u[i] = a.thrusting ? g * a.x[6] * d[i] : 0.;
    }
    if (a.thrusting && c.chance(0.1)) { // thrust along one axis
        auto k = static_cast<std::size_t>(c.integer(0, 2));
        a.u = {0., 0., 0.};
        a.u[k] = c.sign() * g * a.x[6];
    }
    // A share of the mass used (forward) or gained (backward).
    // Not faster than the motion itself: the integrator's steps are chosen by the largest numbers, the positions.
    double share = std::min(c.logreal(1e-3, 0.6), std::sqrt(o.mu / R) / R * std::abs(a.t));
    a.veff = g * std::abs(a.t) / share;
    if (!(a.veff > 0)) {
        a.veff = 1.;
    }
    c.label(a.thrusting ? "thrust" : "no thrust");
    c.label(a.t < 0 ? "backward" : "forward");
    c.show("state", vec(a.x));
    c.show("thrust", vec(a.u));
    c.show("mu", a.mu);
    c.show("veff", a.veff);
    c.show("t", a.t);
    return a;
}
tref::vec<7> up7(const a7 &x)
{
    tref::vec<7> y;
    std::copy(x.begin(), x.end(), y.begin());
    return y;
}
tref::Args args(const Arc &a)
{
    return {a.mu, a.veff, {a.u[0], a.u[1], a.u[2]}};
}
bool wild(const tref::Track &t)
{
    return t.bad || t.rmax > 15 * t.rmin || isnanq(t.rmax);
}
// The largest number the integrator sees against the distance: its step control is relative to the largest number.
double crowding(double largest, double r)
{
    return std::max(1., std::max(1., largest) / r);
}
// The end of the flight, and what relative errors of size 1 (first order) in every input do to it.
struct Flight {
    tref::vec<7> y;
    Scales e{0, 0, 0}, s{0, 0, 0};
    tref::Track track;
};
Flight fly(Case &c, const Arc &a, int samples = 4)
{
    Flight f;
    f.y = tref::stark(up7(a.x), args(a), a.t, &f.track);
    if (wild(f.track)) {
        c.discard();
    }
    f.s = {dn(f.track.rmax), dn(f.track.vmax), std::max(a.x[6], dn(f.y[6]))};
    f.e = f.s;
    const q d = 1e-12q;
    double R = norm3(a.x.data()), V = norm3(a.x.data() + 3), U = norm3(a.u.data());
    for (int k = 0; k < samples; ++k) {
        auto bits = c.u64();
        int n = 0;
        auto s = [&]() { return (bits >> n++) & 1u ? d : -d; };
        auto x = up7(a.x);
        for (std::size_t i = 0; i < 7; ++i) {
            x[i] += s() * (i < 3 ? R : i < 6 ? V : a.x[6]);
        }
        auto g = args(a);
        for (std::size_t i = 0; i < 3; ++i) {
            g.u[i] += s() * U;
        }
        g.mu *= 1 + s();
        g.veff *= 1 + s();
        auto y = tref::stark(x, g, q(a.t) * (1 + s()));
        Scales e{0, 0, 0};
        for (std::size_t i = 0; i < 7; ++i) {
            double z = std::abs(dn((y[i] - f.y[i]) / d));
            (i < 3 ? e.r : i < 6 ? e.v : e.m) += z;
        }
        f.e = {std::max(f.e.r, e.r), std::max(f.e.v, e.v), std::max(f.e.m, e.m)};
    }
    // Errors made on the way, at the closest point.
    double can = dn(f.track.rmax / f.track.rmin);
    f.e.r *= can, f.e.v *= can;
    return f;
}
// Relative error of a numerical integration.
double unit_error(double tol, double largest, double r)
{
    return 16 * eps + 16 * std::max(tol, eps) * crowding(largest, r);
}
double largest(const a7 &x)
{
    double m = 0;
    for (double v : x) {
        m = std::max(m, std::abs(v));
    }
    return m;
}
template <typename S>
void same_flight(Case &c, const std::string &what, const S &got, const Flight &f, double unit)
{
    for (std::size_t i = 0; i < 7; ++i) {
        c.close(what + (i < 3 ? " position" : i < 6 ? " velocity" : " mass"), got[i], dn(f.y[i]), unit * f.e.of(i));
    }
}
// All the first derivatives of the end of the flight: by the state (7) and by the thrust (3).
struct Derivatives {
    std::vector<std::vector<q>> J; // 7 x 10
    std::vector<double> in;        // scales of the inputs
    Scales out{0, 0, 0};
    double n = 1;   // norm of the scaled matrix
    double big = 1; // largest entry
};
Derivatives derivatives(const Arc &a, const tref::Track &t)
{
    Derivatives d;
    double R = norm3(a.x.data()), V = norm3(a.x.data() + 3), U = norm3(a.u.data());
    d.in = {R, R, R, V, V, V, a.x[6], U, U, U};
    d.out = {dn(t.rmax), dn(t.vmax), a.x[6]};
    std::vector<q> p(a.x.begin(), a.x.end());
    p.insert(p.end(), a.u.begin(), a.u.end());
    d.J = tref::jacobian(
        [&](const std::vector<q> &z) {
            tref::vec<7> x;
            std::copy_n(z.begin(), 7, x.begin());
            auto y = tref::stark(x, {a.mu, a.veff, {z[7], z[8], z[9]}}, a.t);
            return std::vector<q>(y.begin(), y.end());
        },
        p, d.in);
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < 10; ++j) {
            double z = std::abs(dn(d.J[i][j]));
            d.n = std::max(d.n, z * d.in[j] / d.out.of(i));
            d.big = std::max(d.big, z);
        }
    }
    return d;
}
// Tolerance of entry (i, j): relative to the norm of the scaled matrix, twice (its own size and its own conditioning).
double entry_tol(const Derivatives &d, std::size_t i, std::size_t j, double unit, double can)
{
    return unit * d.n * d.n * can * d.out.of(i) / d.in[j];
}
} // namespace

// ---------------------------------------------------------------------------------------------------------------- K22
PROP("K22", "stark_flights", 1500, 20000, "thrust changes the mass by more than a thousandth over more than a tenth of a turn")
{
    auto a = arc(c, 1.5, true);
    double tol = tolerance(c);
    c.show("tol", tol);
    auto f = fly(c, a);
    ta_t ta = kep3::ta::get_ta_stark(tol);
    c.check(!ta.is_variational() && ta.get_dim() == 7u && ta.get_pars().size() == 5u, "wrong number of states or parameters");
    c.check(ta.get_tol() == tol, "the integrator does not have the requested tolerance");
    ta.set_time(0.);
    std::copy(a.x.begin(), a.x.end(), ta.get_state_data());
    double p[5] = {a.mu, a.veff, a.u[0], a.u[1], a.u[2]};
    std::copy(p, p + 5, ta.get_pars_data());
    auto out = ta.propagate_until(a.t);
    c.check(std::get<0>(out) == taylor_outcome::time_limit, "the end of the flight is not reached");
    same_flight(c, "end", ta.get_state(), f, unit_error(tol, largest(a.x), dn(f.track.rmin)));
    c.nontrivial(a.thrusting && f.track.steps > 6);
}

PROP("K22", "stark_derivatives", 250, 4000, "more than a tenth of a turn")
{
    auto a = arc(c, 0.8, false);
    double tol = tolerance(c);
    c.show("tol", tol);
    auto f = fly(c, a, 2);
    auto d = derivatives(a, f.track);
    if (d.n > 1e4) {
        c.discard();
    }
    ta_t ta = kep3::ta::get_ta_stark_var(tol);
    c.check(ta.is_variational() && ta.get_dim() == 77u && ta.get_pars().size() == 5u && ta.get_n_orig_sv() == 7u, "wrong number of states or parameters");
    c.check(ta.get_tol() == tol, "the integrator does not have the requested tolerance");
    // The variational part of a fresh integrator is the identity with respect to the state, zero for the thrust.
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < 10; ++j) {
            c.check(ta.get_state()[7 + 10 * i + j] == (i == j ? 1. : 0.), "wrong initial derivatives");
        }
    }
    ta.set_time(0.);
    std::copy(a.x.begin(), a.x.end(), ta.get_state_data());
    double p[5] = {a.mu, a.veff, a.u[0], a.u[1], a.u[2]};
    std::copy(p, p + 5, ta.get_pars_data());
    auto out = ta.propagate_until(a.t);
    c.check(std::get<0>(out) == taylor_outcome::time_limit, "the end of the flight is not reached");
    double rmin = dn(f.track.rmin), unit = unit_error(tol, std::max(largest(a.x), d.big), rmin), can = dn(f.track.rmax / f.track.rmin);
    same_flight(c, "end", ta.get_state(), f, unit);
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < 10; ++j) {
            c.close(j < 7 ? "derivative by the state" : "derivative by the thrust", ta.get_state()[7 + 10 * i + j], dn(d.J[i][j]), entry_tol(d, i, j, unit, can));
        }
    }
    c.nontrivial(f.track.steps > 6);
}

namespace
{
struct Three {
    std::array<double, 6> x{};
    double mu = 0.01, t = 1;
};
Three three(Case &c, double tmax)
{
    Three a;
    a.mu = c.pick({0.01215058560962404, 3.04e-6, 9.5e-4, 0.5, 0.1});
    if (c.chance(0.5)) {
        a.mu = c.logreal(1e-7, 0.5);
    }
    auto d = direction(c);
    double r = c.real(0.2, 1.8);
    for (std::size_t i = 0; i < 3; ++i) {
        a.x[i] = r * d[i];
        a.x[i + 3] = c.real(-0.8, 0.8);
    }
    if (c.chance(0.2)) { // near a libration point
        a.x[0] = 0.5 - a.mu + c.real(-0.05, 0.05);
        a.x[1] = c.sign() * std::sqrt(3.) / 2 + c.real(-0.05, 0.05);
        a.x[2] *= 0.1;
        for (std::size_t i = 3; i < 6; ++i) {
            a.x[i] *= 0.1;
        }
    }
    a.t = c.sign() * c.real(0., tmax);
    c.show("state", vec(a.x));
    c.show("mu", a.mu);
    c.show("t", a.t);
    return a;
}
} // namespace

PROP("K22", "cr3bp_flights", 800, 10000, "longer than half a time unit")
{
    auto a = three(c, 6.);
    double tol = tolerance(c);
    c.show("tol", tol);
    ta_t tv = kep3::ta::get_ta_cr3bp_var(tol), ta = kep3::ta::get_ta_cr3bp(tol);
    c.check(!ta.is_variational() && ta.get_dim() == 6u && ta.get_pars().size() == 1u, "wrong number of states or parameters");
    c.check(tv.is_variational() && tv.get_dim() == 42u && tv.get_pars().size() == 1u, "wrong number of variational states or parameters");
    c.check(ta.get_tol() == tol && tv.get_tol() == tol, "the integrator does not have the requested tolerance");
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            c.check(tv.get_state()[6 + 6 * i + j] == (i == j ? 1. : 0.), "wrong initial derivatives");
        }
    }
    tref::Track tr;
    q near = 1e300q;
    tref::vec<6> x;
    std::copy(a.x.begin(), a.x.end(), x.begin());
    std::vector<q> y0;
    auto y = tref::cr3bp(x, a.mu, a.t, &tr, &near);
    double far = 0;
    for (auto v : y) {
        far = std::max(far, std::abs(dn(v)));
    }
    if (tr.bad || near < 0.05q || !(far < 20)) {
        c.discard();
    }
    std::vector<double> ones(6, 1.);
    auto J = tref::jacobian(
        [&](const std::vector<q> &z) {
            tref::vec<6> w;
            std::copy(z.begin(), z.end(), w.begin());
            auto r = tref::cr3bp(w, a.mu, a.t);
            return std::vector<q>(r.begin(), r.end());
        },
        std::vector<q>(x.begin(), x.end()), ones);
    double n = 1;
    for (const auto &r : J) {
        for (auto v : r) {
            n = std::max(n, std::abs(dn(v)));
        }
    }
    if (n > 1e5) {
        c.discard();
    }
    double can = 1 / std::min(1., dn(near)), unit = unit_error(tol, std::max(far, n), dn(near)) * (1 + std::abs(a.t));
    for (auto *t : {&ta, &tv}) {
        t->set_time(0.);
        std::copy(a.x.begin(), a.x.end(), t->get_state_data());
        *t->get_pars_data() = a.mu;
        auto out = t->propagate_until(a.t);
        c.check(std::get<0>(out) == taylor_outcome::time_limit, "the end of the flight is not reached");
        tref::vec<6> z;
        for (std::size_t i = 0; i < 6; ++i) {
            c.close("end", t->get_state()[i], dn(y[i]), unit * n * can * can * (1 + far));
            z[i] = t->get_state()[i];
        }
        c.close("Jacobi constant", dn(tref::jacobi(z, a.mu)), dn(tref::jacobi(x, a.mu)), unit * n * can * can * can * (1 + far) * (1 + far));
    }
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            c.close("derivative", tv.get_state()[6 + 6 * i + j], dn(J[i][j]), unit * n * n * can * can);
        }
    }
    c.nontrivial(std::abs(a.t) > 0.5);
}

PROP("K22", "caches", 400, 4000, "a tolerance asked for again after another one, for an integrator that was copied and used")
{
    // The caches live as long as the process: the model remembers them too.
    static std::map<std::pair<int, double>, const ta_t *> known;
    static std::set<double> seen[4];
    using get_t = const ta_t &(*)(double);
    using dim_t = std::size_t (*)();
    const get_t get[] = {kep3::ta::get_ta_stark, kep3::ta::get_ta_stark_var, kep3::ta::get_ta_cr3bp, kep3::ta::get_ta_cr3bp_var};
    const dim_t dim[] = {kep3::ta::get_ta_stark_cache_dim, kep3::ta::get_ta_stark_var_cache_dim, kep3::ta::get_ta_cr3bp_cache_dim, kep3::ta::get_ta_cr3bp_var_cache_dim};
    static const bool first = [&]() {
        // Other tests of this process have used the caches: start from what they hold now.
        for (int w = 0; w < 4; ++w) {
            for (double t : {1e-16, 1e-15, 1e-14, 1e-13, 1e-12}) {
                known[{w, t}] = &get[w](t);
                seen[w].insert(t);
            }
        }
        return true;
    }();
    (void)first;
    std::size_t base[4];
    for (int w = 0; w < 4; ++w) {
        base[w] = dim[w]() - seen[w].size(); // entries of other tests
    }
    int n = static_cast<int>(c.integer(2, 12));
    bool again = false, used = false;
    std::string log;
    for (int k = 0; k < n; ++k) {
        int w = static_cast<int>(c.integer(0, 3));
        double tol = c.pick({1e-16, 1e-12, 1e-9, 1e-6, 3e-9, 1e-3});
        if (c.chance(0.1)) {
            tol = std::pow(10., -static_cast<double>(c.integer(2, 15))) * static_cast<double>(c.integer(1, 9));
        }
        log += std::to_string(w) + "/" + std::to_string(std::log10(tol)) + " ";
        c.show("calls", log);
        const ta_t &r = get[w](tol);
        auto it = known.find({w, tol});
        if (it != known.end()) {
            c.check(it->second == &r, "another integrator for the same tolerance");
            again = again || used;
        } else {
            for (const auto &[key, p] : known) {
                c.check(p != &r, "the same integrator for two tolerances or systems");
            }
            known[{w, tol}] = &r;
            seen[w].insert(tol);
        }
        for (int z = 0; z < 4; ++z) {
            c.check(dim[z]() == base[z] + seen[z].size(), "the cache does not hold one integrator per tolerance asked for");
        }
        // Nobody has changed what the cache holds.
        std::size_t ns = w < 2 ? 7 : 6, cols = w == 1 ? 10 : w == 3 ? 6 : 0;
        c.check(r.get_tol() == tol && r.get_time() == 0. && r.get_dim() == ns * (1 + cols), "a cached integrator is not as new");
        for (std::size_t i = 0; i < ns; ++i) {
            c.check(r.get_state()[i] == 1., "a cached integrator is not as new (state)");
            for (std::size_t j = 0; j < cols; ++j) {
                c.check(r.get_state()[ns + cols * i + j] == (i == j ? 1. : 0.), "a cached integrator is not as new (derivatives)");
            }
        }
        c.check(r.is_variational() == (w % 2 == 1), "wrong kind of integrator");
        if (w < 2) {
            std::vector<double> p = {1., 1., 0., 0., w == 0 ? 0. : 1e-32};
            c.check(r.get_pars() == p, "a cached integrator is not as new (parameters)");
        }
        // A copy is the caller's own.
        ta_t mine = r;
        for (std::size_t i = 0; i < ns; ++i) {
            mine.get_state_data()[i] = c.real(0.5, 1.5);
        }
        for (std::size_t i = 0; i < mine.get_pars().size(); ++i) {
            mine.get_pars_data()[i] = c.real(0.1, 0.9);
        }
        (void)mine.propagate_for(0.1);
        used = true;
    }
    c.nontrivial(again);
}

// ---------------------------------------------------------------------------------------------------------------- K23
PROP("K23", "stark_problem_flights", 1500, 20000, "thrust over more than a tenth of a turn")
{
    auto a = arc(c, 1.5, true);
    double tol = tolerance(c);
    c.show("tol", tol);
    auto f = fly(c, a);
    kep3::stark_problem s(a.mu, a.veff, tol);
    double unit = unit_error(tol, largest(a.x), dn(f.track.rmin));
    auto y = s.propagate(a.x, a.u, a.t);
    same_flight(c, "end", y, f, unit);
    // And back again.
    auto z = s.propagate(y, a.u, -a.t);
    Scales e = f.e;
    double R = norm3(a.x.data()), V = norm3(a.x.data() + 3);
    double k = (e.r / f.s.r + e.v / f.s.v + e.m / f.s.m);
    for (std::size_t i = 0; i < 7; ++i) {
        c.close("back again", z[i], a.x[i], unit * k * k * (i < 3 ? std::max(R, f.s.r) : i < 6 ? std::max(V, f.s.v) : f.s.m));
    }
    c.nontrivial(a.thrusting && f.track.steps > 6);
}

PROP("K23", "stark_problem_derivatives", 250, 4000, "more than a tenth of a turn")
{
    auto a = arc(c, 0.8, false);
    double tol = tolerance(c);
    c.show("tol", tol);
    auto f = fly(c, a, 2);
    auto d = derivatives(a, f.track);
    if (d.n > 1e4) {
        c.discard();
    }
    kep3::stark_problem s(a.mu, a.veff, tol);
    if (c.chance(0.5)) { // a flight before: the derivatives must start from the identity again
        (void)s.propagate_var(a.x, a.u, a.t * 0.5);
        c.label("used before");
    }
    auto [y, dx, du] = s.propagate_var(a.x, a.u, a.t);
    double rmin = dn(f.track.rmin), unit = unit_error(tol, std::max(largest(a.x), d.big), rmin), can = dn(f.track.rmax / f.track.rmin);
    same_flight(c, "end", y, f, unit);
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < 10; ++j) {
            double got = j < 7 ? dx[7 * i + j] : du[3 * i + j - 7];
            c.close(j < 7 ? "derivative by the state" : "derivative by the thrust", got, dn(d.J[i][j]), entry_tol(d, i, j, unit, can));
        }
    }
    c.nontrivial(f.track.steps > 6);
}

PROP("K23", "stark_problem_histories", 5000, 100000, "at least three calls, one of them a setter, a copy or an archive followed by a flight")
{
    double mu = c.real(0.5, 2.), veff = c.real(0.5, 2.), tol = c.pick({1e-16, 1e-12, 1e-8, 1e-4});
    kep3::stark_problem s;
    if (c.chance(0.2)) {
        mu = 1., veff = 1., tol = 1e-16;
    } else {
        s = kep3::stark_problem(mu, veff, tol);
    }
    auto state = [&]() {
        auto d = direction(c);
        auto e = ref::dcross(d, direction(c));
        double n = std::max(1e-3, ref::dnorm(e));
        return a7{d[0], d[1], d[2], e[0] / n, e[1] / n, e[2] / n, c.real(0.5, 3.)};
    };
    int steps = static_cast<int>(c.integer(1, 10));
    bool changed = false, flown = false;
    std::string log;
    for (int k = 0; k < steps; ++k) {
        long op = c.integer(0, 8);
        log += std::to_string(op) + " ";
        c.show("calls", log);
        switch (op) {
            case 0:
                mu = c.real(0.5, 2.);
                s.set_mu(mu);
                changed = true;
                break;
            case 1:
                veff = c.real(0.5, 2.);
                s.set_veff(veff);
                changed = true;
                break;
            case 2: {
                kep3::stark_problem t = s;
                if (c.chance(0.5)) {
                    t.set_mu(7.), t.set_veff(9.); // a copy is independent
                    (void)t.propagate(state(), {0.1, 0.2, 0.3}, 0.1);
                } else {
                    s = t;
                }
                changed = true;
                break;
            }
            case 3: {
                std::stringstream st;
                kep3::stark_problem t(3., 4., 1e-10);
                if (c.chance(0.5)) {
                    {
                        boost::archive::binary_oarchive oa(st);
                        oa << s;
                    }
                    boost::archive::binary_iarchive ia(st);
                    ia >> t;
                } else {
                    {
                        boost::archive::text_oarchive oa(st);
                        oa << s;
                    }
                    boost::archive::text_iarchive ia(st);
                    ia >> t;
                }
                s = t;
                changed = true;
                break;
            }
            case 4: {
                auto x = state();
                x[6] = 0.;
                c.check(throws<std::domain_error>([&]() { (void)s.propagate(x, {0.1, 0., 0.}, 1.); }), "zero mass is not refused");
                c.check(throws<std::domain_error>([&]() { (void)s.propagate_var(x, {0.1, 0., 0.}, 1.); }), "zero mass is not refused (derivatives)");
                break;
            }
            case 5: {
                // The integrators handed out are copies.
                auto t = s.get_ta(), v = s.get_ta_var();
                c.check(t.get_tol() == tol && v.get_tol() == tol && !t.is_variational() && v.is_variational(), "wrong integrators");
                c.check(t.get_pars()[0] == mu && v.get_pars()[0] == mu && t.get_pars()[1] == veff && v.get_pars()[1] == veff, "the integrators do not have the values set");
                t.get_pars_data()[0] = 9., v.get_pars_data()[1] = 9.;
                t.get_state_data()[0] = 9.;
                break;
            }
            default: {
                auto x = state();
                a3 u = {c.real(-0.1, 0.1), c.real(-0.1, 0.1), c.real(0.01, 0.1)};
                double t = c.real(-1., 1.);
                kep3::stark_problem fresh(mu, veff, tol);
                if (op == 6) {
                    c.check(s.propagate(x, u, t) == fresh.propagate(x, u, t), "another end than that of a new problem with the same values");
                } else {
                    c.check(s.propagate_var(x, u, t) == fresh.propagate_var(x, u, t), "other derivatives than those of a new problem with the same values");
                }
                flown = flown || changed;
            }
        }
        c.check(s.get_mu() == mu && s.get_veff() == veff && s.get_tol() == tol, "the getters do not return the values set");
    }
    c.nontrivial(steps >= 3 && flown);
}

// ---------------------------------------------------------------------------------------------------- K24, K25: the leg
namespace
{
struct HLeg {
    a7 xs{}, xf{};
    double tof = 1, thrust = 1, isp = 1, mu = 1, cut = 0.5, tol = 1e-16;
    std::vector<double> th;
    [[nodiscard]] std::size_t nseg() const
    {
        return th.size() / 3;
    }
    [[nodiscard]] std::size_t fwd() const
    {
        return static_cast<std::size_t>(static_cast<double>(nseg()) * cut);
    }
};
kep3::leg::sims_flanagan_hf build(const HLeg &l)
{
    return {l.xs, l.th, l.xf, l.tof, l.thrust, l.isp, l.mu, l.cut, l.tol};
}
const q g0 = q(9.80665);

// The state at the end of each segment, from the departure up to the cut and from the arrival down to it.
struct Halves {
    tref::vec<7> f, b;
    tref::Track track;
};
struct QLeg {
    tref::vec<7> xs, xf;
    std::vector<q> th;
    q tof, thrust, isp, mu;
    std::size_t fwd;
};
QLeg up(const HLeg &l)
{
    QLeg o;
    o.xs = up7(l.xs), o.xf = up7(l.xf);
    o.th.assign(l.th.begin(), l.th.end());
    o.tof = l.tof, o.thrust = l.thrust, o.isp = l.isp, o.mu = l.mu;
    o.fwd = l.fwd();
    return o;
}
tref::Args seg_args(const QLeg &l, std::size_t i)
{
    return {l.mu, l.isp * g0, {l.thrust * l.th[3 * i], l.thrust * l.th[3 * i + 1], l.thrust * l.th[3 * i + 2]}};
}
Halves halves(const QLeg &l)
{
    Halves h;
    std::size_t n = l.th.size() / 3;
    q dt = l.tof / q(static_cast<double>(n));
    h.f = l.xs, h.b = l.xf;
    for (std::size_t i = 0; i < l.fwd && !h.track.bad; ++i) {
        h.f = tref::stark(h.f, seg_args(l, i), dt, &h.track);
    }
    for (std::size_t i = n; i-- > l.fwd && !h.track.bad;) {
        h.b = tref::stark(h.b, seg_args(l, i), -dt, &h.track);
    }
    h.track.seen(h.f);
    h.track.seen(h.b);
    return h;
}
HLeg hleg(Case &c, long max_seg, bool zeros, double max_turns = 0.7)
{
    HLeg l;
    auto o = orbit(c, Conic::any, 0.15, 0., 2.);
    l.mu = o.mu;
    l.tof = 2 * pi * c.real(0.03, max_turns) / o.n();
    auto n = static_cast<std::size_t>(c.integer(1, max_seg));
    switch (c.integer(0, 5)) {
        case 0:
            l.cut = c.pick({0., 1.});
            break;
        case 1:
            l.cut = static_cast<double>(c.integer(0, static_cast<long>(n))) / static_cast<double>(n);
            break;
        case 2:
            l.cut = 0.5;
            break;
        default:
            l.cut = c.unit();
    }
    auto end = dn(ref::kepler(o.rv, l.tof, o.mu));
    double R = ref::dnorm(end[0]), V = ref::dnorm(end[1]), off = c.chance(0.3) ? 0.2 : c.logreal(1e-6, 1e-1);
    double m = mass(c, o);
    for (std::size_t i = 0; i < 3; ++i) {
        l.xs[i] = o.rv[0][i], l.xs[i + 3] = o.rv[1][i];
        l.xf[i] = end[0][i] + R * off * c.real(-1., 1.), l.xf[i + 3] = end[1][i] + V * off * c.real(-1., 1.);
    }
    l.xs[6] = m;
    l.xf[6] = m * c.real(0.4, 1.);
    double r0 = norm3(l.xs.data()), acc = o.mu / r0 / r0 * c.logreal(1e-6, 0.2);
    l.thrust = acc * m;
    if (zeros && c.chance(0.03)) {
        l.thrust = 0.;
    }
    l.isp = acc * l.tof / c.logreal(1e-3, 0.4) / 9.80665;
    for (std::size_t i = 0; i < n; ++i) {
        auto d = direction(c);
        double k = 1;
        switch (c.integer(0, 3)) {
            case 0:
                k = 1;
                break;
            case 1:
                k = zeros ? 0. : 0.3;
                break;
            default:
                k = c.real(zeros ? 0. : 1e-2, 1.2);
        }
        for (std::size_t x = 0; x < 3; ++x) {
            l.th.push_back(k * d[x]);
        }
    }
    leg::relate(c, l.th, zeros);
    l.tol = c.pick({1e-16, 1e-16, 1e-14, 1e-12});
    c.show("rvms", vec(l.xs));
    c.show("rvmf", vec(l.xf));
    c.show("throttles", l.th);
    c.show("tof", l.tof);
    c.show("max_thrust", l.thrust);
    c.show("isp", l.isp);
    c.show("mu", l.mu);
    c.show("cut", l.cut);
    c.show("tol", l.tol);
    c.label(std::to_string(n) + " segments");
    c.label(l.fwd() == 0 ? "backward only" : l.fwd() == n ? "forward only" : "both halves");
    return l;
}
tref::vec<7> gap(const Halves &h)
{
    tref::vec<7> g;
    for (std::size_t i = 0; i < 7; ++i) {
        g[i] = h.f[i] - h.b[i];
    }
    return g;
}
// What relative errors of size 1 in the inputs do to the two ends at the cut.
Scales leg_errors(Case &c, const HLeg &l, const Halves &h, int samples = 3)
{
    Scales s{dn(h.track.rmax), dn(h.track.vmax), std::max(l.xs[6], dn(h.b[6]))}, e = s;
    const q d = 1e-12q;
    for (int k = 0; k < samples; ++k) {
        auto ql = up(l);
        std::uint64_t bits = c.u64();
        int n = 0;
        auto sg = [&]() { return (bits >> (n++ % 64)) & 1u ? d : -d; };
        for (std::size_t i = 0; i < 7; ++i) {
            ql.xs[i] += sg() * (i < 3 ? norm3(l.xs.data()) : i < 6 ? norm3(l.xs.data() + 3) : l.xs[6]);
            ql.xf[i] += sg() * (i < 3 ? norm3(l.xf.data()) : i < 6 ? norm3(l.xf.data() + 3) : l.xf[6]);
        }
        for (auto &t : ql.th) {
            t += sg() * fabsq(t);
        }
        ql.tof *= 1 + sg(), ql.thrust *= 1 + sg(), ql.isp *= 1 + sg(), ql.mu *= 1 + sg();
        auto z = halves(ql);
        Scales x{0, 0, 0};
        for (std::size_t i = 0; i < 7; ++i) {
            (i < 3 ? x.r : i < 6 ? x.v : x.m) += std::abs(dn((z.f[i] - h.f[i]) / d)) + std::abs(dn((z.b[i] - h.b[i]) / d));
        }
        e = {std::max(e.r, x.r), std::max(e.v, x.v), std::max(e.m, x.m)};
    }
    double can = dn(h.track.rmax / h.track.rmin);
    e.r *= can, e.v *= can;
    return e;
}
double leg_unit(const HLeg &l, const Halves &h, double big = 0.)
{
    return unit_error(l.tol, std::max({largest(l.xs), largest(l.xf), dn(h.b[6]), big}), dn(h.track.rmin));
}
} // namespace

PROP("K24", "mismatch_is_the_gap_of_the_model", 1000, 15000, "thrust in both halves")
{
    auto l = hleg(c, 6, true);
    auto h = halves(up(l));
    if (wild(h.track)) {
        c.discard();
    }
    auto e = leg_errors(c, l, h);
    auto g = gap(h);
    double unit = leg_unit(l, h);
    auto s = build(l);
    auto got = s.compute_mismatch_constraints();
    auto all = s.compute_constraints();
    auto tc = s.compute_throttle_constraints();
    c.check(all.size() == 7 + l.nseg() && tc.size() == l.nseg(), "wrong number of constraints");
    for (std::size_t i = 0; i < 7; ++i) {
        c.close(i < 3 ? "position mismatch" : i < 6 ? "velocity mismatch" : "mass mismatch", got[i], dn(g[i]), unit * e.of(i));
        c.check(all[i] == got[i], "compute_constraints does not start with the mismatch");
    }
    for (std::size_t i = 0; i < l.nseg(); ++i) {
        q n2 = -1;
        for (std::size_t x = 0; x < 3; ++x) {
            n2 += q(l.th[3 * i + x]) * q(l.th[3 * i + x]);
        }
        c.close("throttle constraint", tc[i], dn(n2), 4 * eps);
        c.check(all[7 + i] == tc[i], "compute_constraints does not end with the throttles");
    }
    // The same leg by the other constructor and by a chromosome.
    kep3::leg::sims_flanagan_hf s2({{{l.xs[0], l.xs[1], l.xs[2]}, {l.xs[3], l.xs[4], l.xs[5]}}}, l.xs[6], l.th, {{{l.xf[0], l.xf[1], l.xf[2]}, {l.xf[3], l.xf[4], l.xf[5]}}},
                                   l.xf[6], l.tof, l.thrust, l.isp, l.mu, l.cut, l.tol);
    c.check(s2.compute_constraints() == all, "the two constructors give different legs");
    std::vector<double> x(l.xs.begin(), l.xs.end());
    x.insert(x.end(), l.th.begin(), l.th.end());
    x.insert(x.end(), l.xf.begin(), l.xf.end());
    x.push_back(l.tof);
    HLeg other = l;
    other.xs[0] *= 1.1, other.xf[4] *= 0.9, other.tof *= 0.7;
    for (auto &t : other.th) {
        t *= 0.5;
    }
    auto s3 = build(other);
    c.check(s3.set_and_compute_constraints(x) == all, "set_and_compute_constraints differs from a leg with these values");
    c.nontrivial(l.thrust > 0 && l.fwd() > 0 && l.fwd() < l.nseg());
}

PROP("K24", "feasible_legs_close", 400, 6000, "the two halves meet after at least two segments")
{
    // The arrival is the end of the whole leg flown forward: no mismatch wherever the cut is.
    auto l = hleg(c, 6, true);
    double cut = l.cut;
    l.cut = 1.;
    auto h = halves(up(l));
    if (wild(h.track)) {
        c.discard();
    }
    for (std::size_t i = 0; i < 7; ++i) {
        l.xf[i] = dn(h.f[i]);
    }
    l.cut = cut;
    auto k = halves(up(l));
    if (wild(k.track)) {
        c.discard();
    }
    auto e = leg_errors(c, l, k);
    double unit = leg_unit(l, k);
    auto got = build(l).compute_mismatch_constraints();
    for (std::size_t i = 0; i < 7; ++i) {
        c.close(i < 3 ? "position mismatch" : i < 6 ? "velocity mismatch" : "mass mismatch", got[i], 0., unit * e.of(i));
    }
    c.nontrivial(l.nseg() >= 2);
}

PROP("K24", "state_history", 400, 6000, "at least two segments and three points per segment")
{
    auto l = hleg(c, 5, true);
    auto h = halves(up(l));
    if (wild(h.track)) {
        c.discard();
    }
    auto e = leg_errors(c, l, h);
    auto s = build(l);
    auto g = static_cast<unsigned>(c.integer(2, 6));
    c.show("points", g);
    bool before = c.chance(0.5);
    if (before) {
        (void)s.compute_mismatch_constraints();
    }
    auto hist = s.get_state_history(g);
    auto ql = up(l);
    std::size_t n = l.nseg();
    c.check(hist.size() == n, "wrong number of segments in the history");
    double unit = leg_unit(l, h) + 2 * static_cast<double>(n * g) * eps; // the grid is a running sum
    q dt = ql.tof / q(static_cast<double>(n)) / q(static_cast<double>(g - 1));
    auto one = [&](std::size_t i, tref::vec<7> &x, q step) {
        c.check(hist[i].size() == 7u * g, "wrong number of states in a segment of the history");
        for (unsigned k = 0; k < g; ++k) {
            if (k > 0) {
                x = tref::stark(x, seg_args(ql, i), step);
            }
            for (std::size_t j = 0; j < 7; ++j) {
                c.close(j < 3 ? "position" : j < 6 ? "velocity" : "mass", hist[i][7 * k + j], dn(x[j]), unit * e.of(j));
            }
        }
    };
    auto x = ql.xs;
    for (std::size_t i = 0; i < l.fwd(); ++i) {
        one(i, x, dt);
    }
    x = ql.xf;
    for (std::size_t i = n; i-- > l.fwd();) {
        one(i, x, -dt);
    }
    c.nontrivial(n >= 2 && g >= 3);
}

PROP("K24", "state_derivative", 5000, 60000, "the throttle is not zero")
{
    auto l = hleg(c, 2, true);
    auto s = build(l);
    a3 u = {l.th[0], l.th[1], l.th[2]};
    auto got = s.get_state_derivative(l.xs, u);
    q r2 = 0, un = 0;
    for (std::size_t i = 0; i < 3; ++i) {
        r2 += q(l.xs[i]) * l.xs[i];
        un += q(u[i]) * u[i];
    }
    un = sqrtq(un) * l.thrust;
    q r3 = r2 * sqrtq(r2);
    double acc = dn(q(l.mu) / r2 + un / l.xs[6]);
    for (std::size_t i = 0; i < 3; ++i) {
        c.check(got[i] == l.xs[i + 3], "the derivative of the position is not the velocity");
        c.close("acceleration", got[i + 3], dn(-q(l.mu) / r3 * l.xs[i] + q(l.thrust) * u[i] / l.xs[6]), 16 * eps * acc);
    }
    double md = dn(un / (q(l.isp) * g0));
    c.close("mass flow", got[6], -md, 16 * eps * md);
    c.nontrivial(un > 0);
}

PROP("K25", "gradients_of_the_mismatch", 200, 3000, "at least two segments, both halves")
{
    auto l = hleg(c, 4, false, 0.5);
    auto ql = up(l);
    auto h = halves(ql);
    if (wild(h.track)) {
        c.discard();
    }
    std::size_t n = l.nseg(), m = 14 + 3 * n + 1;
    double Rs = norm3(l.xs.data()), Vs = norm3(l.xs.data() + 3), Rf = norm3(l.xf.data()), Vf = norm3(l.xf.data() + 3);
    std::vector<double> in;
    for (double z : {Rs, Rs, Rs, Vs, Vs, Vs, l.xs[6], Rf, Rf, Rf, Vf, Vf, Vf, l.xf[6]}) {
        in.push_back(z);
    }
    for (std::size_t i = 0; i < 3 * n; ++i) {
        in.push_back(1.);
    }
    in.push_back(l.tof);
    std::vector<q> p(ql.xs.begin(), ql.xs.end());
    p.insert(p.end(), ql.xf.begin(), ql.xf.end());
    p.insert(p.end(), ql.th.begin(), ql.th.end());
    p.push_back(ql.tof);
    auto J = tref::jacobian(
        [&](const std::vector<q> &z) {
            auto x = ql;
            std::copy_n(z.begin(), 7, x.xs.begin());
            std::copy_n(z.begin() + 7, 7, x.xf.begin());
            std::copy_n(z.begin() + 14, 3 * n, x.th.begin());
            x.tof = z.back();
            auto g = gap(halves(x));
            return std::vector<q>(g.begin(), g.end());
        },
        p, in);
    Scales out{dn(h.track.rmax), dn(h.track.vmax), std::max(l.xs[6], dn(h.b[6]))};
    double norm = 1, big = 1;
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < m; ++j) {
            double z = std::abs(dn(J[i][j]));
            norm = std::max(norm, z * in[j] / out.of(i));
            // The integrator works with derivatives by the thrust.
            big = std::max(big, j >= 14 && j < m - 1 ? z / l.thrust : z * (j == m - 1 ? 0. : 1.));
        }
    }
    if (norm > 1e4 || big > 1e6 * dn(h.track.rmin)) {
        c.discard();
    }
    auto s = build(l);
    if (c.chance(0.3)) {
        (void)s.compute_mc_grad();
        (void)s.get_state_history(3);
        c.label("used before");
    }
    auto [ds, df, dt] = s.compute_mc_grad();
    c.check(dt.size() == 7 * (3 * n + 1), "wrong number of derivatives");
    double unit = leg_unit(l, h, big), can = dn(h.track.rmax / h.track.rmin);
    auto seg = s.compute_all_gradients();
    c.check(std::get<0>(seg).size() == n && std::get<1>(seg).size() == n && std::get<2>(seg).size() == n, "wrong number of segments");
    for (std::size_t i = 0; i < 7; ++i) {
        for (std::size_t j = 0; j < m; ++j) {
            double got = j < 7 ? ds[7 * i + j] : j < 14 ? df[7 * i + j - 7] : dt[(3 * n + 1) * i + j - 14];
            const char *what = j < 7 ? "derivative by the departure" : j < 14 ? "derivative by the arrival" : j < m - 1 ? "derivative by the throttles" : "derivative by the time of flight";
            c.close(what, got, dn(J[i][j]), unit * norm * norm * can * out.of(i) / in[j]);
        }
    }
    c.nontrivial(n >= 2 && l.fwd() > 0 && l.fwd() < n);
}

PROP("K25", "gradient_of_the_throttle_constraints", 3000, 30000, "at least two segments")
{
    HLeg l = hleg(c, 8, true);
    auto g = build(l).compute_tc_grad();
    std::size_t n = l.nseg();
    c.check(g.size() == n * 3 * n, "wrong number of derivatives");
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < 3 * n; ++j) {
            c.check(g[i * 3 * n + j] == (j / 3 == i ? 2 * l.th[j] : 0.), "wrong derivative of a throttle constraint");
        }
    }
    c.nontrivial(n >= 2);
}

// ---------------------------------------------------------------------------------------------------------------- K26
namespace
{
using hf = kep3::leg::sims_flanagan_hf;
using rv_t = std::array<std::array<double, 3>, 2>;
rv_t rv_of(const a7 &x)
{
    return {{{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}};
}
bool same(const hf &s, const HLeg &l)
{
    return s.get_rvms() == l.xs && s.get_rvmf() == l.xf && s.get_rvs() == rv_of(l.xs) && s.get_rvf() == rv_of(l.xf) && s.get_ms() == l.xs[6] && s.get_mf() == l.xf[6]
           && s.get_throttles() == l.th && s.get_tof() == l.tof && s.get_max_thrust() == l.thrust && s.get_isp() == l.isp && s.get_mu() == l.mu && s.get_cut() == l.cut
           && s.get_tol() == l.tol && s.get_nseg() == l.nseg() && s.get_nseg_fwd() == l.fwd() && s.get_nseg_bck() == l.nseg() - l.fwd();
}
enum class Kind { good, domain, logic };
template <typename F>
Kind outcome(F &&f)
{
    try {
        f();
    } catch (const std::domain_error &) { // a logic_error too
        return Kind::domain;
    } catch (const std::logic_error &) {
        return Kind::logic;
    }
    return Kind::good;
}
double quantity(Case &c, bool &bad, double lo, double hi)
{
    bad = c.integer(0, 7) == 0;
    return bad ? -c.logreal(1e-12, 1e3) : c.logreal(lo, hi);
}
double share(Case &c, bool &bad) // a cut
{
    bad = false;
    switch (c.integer(0, 6)) {
        case 0:
            bad = true;
            return c.chance(0.5) ? -c.logreal(1e-15, 1.) : 1 + c.logreal(1e-15, 1.);
        case 1:
            return c.pick({0., 1., 0.5, 1. / 3});
        default:
            return c.unit();
    }
}
double tol_value(Case &c, bool &bad)
{
    bad = c.integer(0, 7) == 0;
    return bad ? c.pick({0., -1e-10, 1.5}) : c.pick({1e-16, 1e-12, 1e-8, 1e-4});
}
std::vector<double> some_throttles(Case &c, bool &bad)
{
    auto n = static_cast<std::size_t>(3 * c.integer(0, 5));
    if (c.chance(0.15)) {
        n += static_cast<std::size_t>(c.integer(1, 2));
    }
    bad = n == 0 || n % 3 != 0;
    std::vector<double> t;
    for (std::size_t i = 0; i < n; ++i) {
        t.push_back(c.real(-1., 1.));
    }
    leg::relate(c, t, false);
    return t;
}
a7 some_state(Case &c)
{
    auto d = angle(c);
    double e = 0.2;
    return {std::cos(d) + c.real(-e, e), std::sin(d) + c.real(-e, e), c.real(-e, e), -std::sin(d) + c.real(-e, e), std::cos(d) + c.real(-e, e), c.real(-e, e), c.logreal(0.5, 10.)};
}
// All the results, or the error, in one list.
std::vector<double> results(const hf &s, int what)
{
    std::vector<double> r;
    auto add = [&r](const auto &v) { r.insert(r.end(), v.begin(), v.end()); };
    try {
        if (what & 1) {
            add(s.compute_constraints());
            add(s.compute_mismatch_constraints());
        }
        if (what & 2) {
            auto [a, b, d] = s.compute_mc_grad();
            add(a), add(b), add(d);
        }
        if (what & 4) {
            for (const auto &x : s.get_state_history(3)) {
                add(x);
            }
        }
        if (what & 8) {
            add(s.compute_tc_grad());
            add(s.get_state_derivative(s.get_rvms(), {0.1, 0.2, 0.3}));
        }
    } catch (const std::domain_error &) {
        r.assign(1, -12345.);
    }
    return r;
}
bool identical(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) {
            return false;
        }
    }
    return true;
}
void through(Case &c, hf &s)
{
    std::stringstream st;
    hf z;
    if (c.chance(0.5)) {
        z.set_throttles(std::vector<double>(9, 0.5));
        z.set_mu(3.);
        z.set_tol(1e-5);
    }
    if (c.chance(0.5)) {
        {
            boost::archive::binary_oarchive oa(st);
            oa << s;
        }
        boost::archive::binary_iarchive ia(st);
        ia >> z;
    } else {
        {
            boost::archive::text_oarchive oa(st);
            oa << s;
        }
        boost::archive::text_iarchive ia(st);
        ia >> z;
    }
    s = z;
}
} // namespace

PROP("K26", "any_history_of_the_leg", 15000, 400000, "at least three accepted changes, one of max_thrust, isp, mu or tol, and results in between")
{
    HLeg m;
    m.xs = {1, 0, 0, 0, 1, 0, 1};
    m.xf = {0, 1, 0, -1, 0, 0, 1};
    m.th = {0, 0, 0, 0, 0, 0};
    m.tof = 1.5707963267948966;
    hf s;
    c.check(same(s, m), "the default leg is not the documented one");
    int steps = static_cast<int>(c.integer(1, 12)), accepted = 0;
    bool physical = false, computed = false;
    std::string log;
    for (int k = 0; k < steps; ++k) {
        HLeg t = m;
        bool bad = false, bad_th = false;
        Kind got = Kind::good;
        long op = c.integer(0, 19);
        std::string name;
        switch (op) {
            case 0:
                t.tof = quantity(c, bad, 1e-2, 2.);
                name = "set_tof";
                got = outcome([&]() { s.set_tof(t.tof); });
                break;
            case 1: {
                auto x = some_state(c);
                std::copy_n(x.begin(), 6, t.xs.begin());
                name = "set_rvs";
                got = outcome([&]() { s.set_rvs(rv_of(x)); });
                break;
            }
            case 2:
                t.xs[6] = c.logreal(0.5, 10.);
                name = "set_ms";
                got = outcome([&]() { s.set_ms(t.xs[6]); });
                break;
            case 3:
                t.th = some_throttles(c, bad_th);
                name = "set_throttles";
                got = outcome([&]() { s.set_throttles(t.th); });
                break;
            case 4: {
                auto pool = some_throttles(c, bad_th);
                auto a = c.integer(0, static_cast<long>(pool.size())), b = c.integer(0, static_cast<long>(pool.size()));
                bad_th = b - a <= 0 || (b - a) % 3 != 0;
                name = "set_throttles(iterators)";
                if (!bad_th) {
                    t.th.assign(pool.begin() + a, pool.begin() + b);
                }
                got = outcome([&]() { s.set_throttles(pool.cbegin() + a, pool.cbegin() + b); });
                break;
            }
            case 5: {
                auto x = some_state(c);
                std::copy_n(x.begin(), 6, t.xf.begin());
                name = "set_rvf";
                got = outcome([&]() { s.set_rvf(rv_of(x)); });
                break;
            }
            case 6:
                t.xf[6] = c.logreal(0.5, 10.);
                name = "set_mf";
                got = outcome([&]() { s.set_mf(t.xf[6]); });
                break;
            case 7:
                t.thrust = quantity(c, bad, 1e-3, 0.5);
                name = "set_max_thrust";
                got = outcome([&]() { s.set_max_thrust(t.thrust); });
                break;
            case 8:
                t.isp = quantity(c, bad, 0.05, 10.);
                name = "set_isp";
                got = outcome([&]() { s.set_isp(t.isp); });
                break;
            case 9:
                t.mu = quantity(c, bad, 0.5, 2.);
                name = "set_mu";
                got = outcome([&]() { s.set_mu(t.mu); });
                break;
            case 10:
                t.cut = share(c, bad);
                name = "set_cut";
                got = outcome([&]() { s.set_cut(t.cut); });
                break;
            case 11:
                t.tol = tol_value(c, bad);
                name = "set_tol";
                got = outcome([&]() { s.set_tol(t.tol); });
                break;
            case 12:
                t.xs = some_state(c);
                name = "set_rvms";
                got = outcome([&]() { s.set_rvms(t.xs); });
                break;
            case 13:
                t.xf = some_state(c);
                name = "set_rvmf";
                got = outcome([&]() { s.set_rvmf(t.xf); });
                break;
            case 14:
            case 15:
            case 16: {
                bool b[6];
                t.xs = some_state(c), t.xf = some_state(c);
                t.th = some_throttles(c, bad_th);
                t.tof = quantity(c, b[0], 1e-2, 2.);
                t.thrust = quantity(c, b[1], 1e-3, 0.5);
                t.isp = quantity(c, b[2], 0.05, 10.);
                t.mu = quantity(c, b[3], 0.5, 2.);
                t.cut = share(c, b[4]);
                t.tol = tol_value(c, b[5]);
                if (c.chance(0.7)) { // all good
                    auto or_ = [](bool x, double &v, double good) { v = x ? good : v; };
                    or_(b[0], t.tof, 1.), or_(b[1], t.thrust, 0.1), or_(b[2], t.isp, 2.), or_(b[3], t.mu, 1.2), or_(b[4], t.cut, 0.4), or_(b[5], t.tol, 1e-10);
                    b[0] = b[1] = b[2] = b[3] = b[4] = b[5] = false;
                }
                if (op == 16 && c.chance(0.5)) {
                    // Only the states, the throttles and the time of flight.
                    t.thrust = m.thrust, t.isp = m.isp, t.mu = m.mu, t.cut = m.cut, t.tol = m.tol;
                    bad = b[0];
                    name = "set(states, throttles, tof)";
                    got = outcome([&]() { s.set(t.xs, t.th, t.xf, t.tof); });
                    break;
                }
                for (bool x : b) {
                    bad = bad || x;
                }
                if (op == 14) {
                    name = "set(rv, m)";
                    got = outcome([&]() { s.set(rv_of(t.xs), t.xs[6], t.th, rv_of(t.xf), t.xf[6], t.tof, t.thrust, t.isp, t.mu, t.cut, t.tol); });
                } else if (op == 15) {
                    name = "set(rvm)";
                    got = outcome([&]() { s.set(t.xs, t.th, t.xf, t.tof, t.thrust, t.isp, t.mu, t.cut, t.tol); });
                } else if (c.chance(0.5)) {
                    name = "construct(rvm)";
                    got = outcome([&]() { s = hf(t.xs, t.th, t.xf, t.tof, t.thrust, t.isp, t.mu, t.cut, t.tol); });
                } else {
                    name = "construct(rv, m)";
                    got = outcome([&]() { s = hf(rv_of(t.xs), t.xs[6], t.th, rv_of(t.xf), t.xf[6], t.tof, t.thrust, t.isp, t.mu, t.cut, t.tol); });
                }
                break;
            }
            case 17: {
                // A chromosome for the present number of segments.
                t.xs = some_state(c), t.xf = some_state(c);
                t.tof = quantity(c, bad, 1e-2, 2.);
                for (auto &x : t.th) {
                    x = c.real(-1., 1.);
                }
                std::vector<double> x(t.xs.begin(), t.xs.end());
                x.insert(x.end(), t.th.begin(), t.th.end());
                x.insert(x.end(), t.xf.begin(), t.xf.end());
                x.push_back(t.tof);
                name = "set_and_compute_constraints";
                std::vector<double> r;
                got = outcome([&]() { r = s.set_and_compute_constraints(x); });
                if (!bad && got == Kind::good) {
                    c.check(identical(r, build(t).compute_constraints()), name + " after " + log + " differs from a fresh leg");
                } else if (!bad) {
                    // The flight may fail (no mass left): the values are set all the same.
                    c.check(throws<std::domain_error>([&]() { (void)build(t).compute_constraints(); }), name + " fails where a fresh leg does not");
                    got = Kind::good;
                }
                break;
            }
            case 18: {
                name = "results";
                (void)results(s, static_cast<int>(c.integer(1, 15)));
                computed = true;
                --accepted;
                break;
            }
            default: {
                name = c.chance(0.3) ? "copy" : "store and load";
                if (name == "copy") {
                    hf z = s;
                    z.set_mu(5.);
                    z.set_throttles({0.1, 0.2, 0.3});
                    (void)results(z, 1);
                    hf y = s;
                    s = y;
                } else {
                    through(c, s);
                }
                --accepted;
            }
        }
        log += (log.empty() ? "" : " ") + name;
        c.show("history", log);
        log += (bad || bad_th) ? "(refused)" : "";
        if (bad || bad_th) {
            c.check(got != Kind::good, name + " accepted invalid arguments");
            c.check(bad ? (bad_th || got == Kind::domain) : got == Kind::logic, name + " refused the arguments with the wrong kind of error");
        } else {
            c.check(got == Kind::good, name + " refused valid arguments");
            physical = physical || (computed && (t.thrust != m.thrust || t.isp != m.isp || t.mu != m.mu || t.tol != m.tol));
            m = t;
            ++accepted;
        }
        c.check(same(s, m), "after " + log + " the getters do not show the values set");
    }
    auto fresh = build(m);
    bool zero = false;
    for (std::size_t i = 0; i < m.nseg(); ++i) {
        zero = zero || norm3(&m.th[3 * i]) * m.thrust == 0;
    }
    for (int w : {1, 4, 8, zero ? 0 : 2}) { // no derivatives at zero thrust
        if (c.chance(0.3)) {
            (void)results(s, 5);
        }
        c.check(identical(results(s, w), results(fresh, w)), std::string("after ") + log + " the " + (w == 1 ? "mismatch" : w == 2 ? "gradients" : w == 4 ? "state history" : "throttle gradients") + " differ from those of a fresh leg");
    }
    c.check(s.get_tas().get_tol() == m.tol && s.get_tas_var().get_tol() == m.tol, "the integrators do not have the tolerance set");
    std::ostringstream a, b;
    a << s;
    b << fresh;
    c.check(a.str() == b.str(), "the printed form differs from that of a fresh leg");
    c.label(std::to_string(std::min(accepted, 10)) + " accepted changes");
    c.nontrivial(accepted >= 3 && physical);
}
