// K06, K07, K08: two-body propagation and its state transition matrix.
#include <optional>
#include <vector>

#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>

#include "gen.hpp"
#include "prop.hpp"

using namespace gen;
using ref::dn;
using ref::q;

namespace
{
void compare(Case &c, const char *what, const state &got, const ref::qstate &want, const ErrScale &s, double f = 1.)
{
    c.ratio(std::string(what) + " position", ref::dist(got[0], want[0]), f * s.r, [&]() { return std::string(what) + ": wrong position"; });
    c.ratio(std::string(what) + " velocity", ref::dist(got[1], want[1]), f * s.v, [&]() { return std::string(what) + ": wrong velocity"; });
}
const char *bucket(const Orbit &o)
{
    return o.hyper ? (o.e < 1.1 ? "1<e<1.1" : "e>1.1") : (o.e > 0.9 ? "0.9<e<1" : o.e < 0.05 ? "e<0.05" : "0.05<e<0.9");
}
} // namespace

PROP("K06", "against_reference", 60000, 1000000, "tof != 0: the body moves")
{
    auto o = orbit(c, Conic::any, 1e-4, 0.);
    double tof = duration(c, o, 50., 40.);
    if (c.chance(0.02)) {
        tof = 0.;
    }
    gen::show(c, o);
    c.show("tof", tof);
    auto s = err_scale(o.rv, tof, o.mu);
    auto want = ref::kepler(o.rv, tof, o.mu);
    auto got = kep3::propagate_lagrangian(o.rv, tof, o.mu, false);
    c.check(!got.second, "a state transition matrix was returned without being requested");
    compare(c, "lagrangian", got.first, want, s);
    // Asking for the matrix does not change the state.
    auto got2 = kep3::propagate_lagrangian(o.rv, tof, o.mu, true);
    c.check(got2.second.has_value(), "the state transition matrix was requested and not returned");
    compare(c, "lagrangian (stm requested)", got2.first, want, s);
    c.label(bucket(o));
    c.label(tof < 0 ? "backward" : "forward");
    c.label(o.units);
    c.nontrivial(tof != 0);
}

PROP("K06", "conserved_quantities", 60000, 1000000, "tof != 0: the body moves")
{
    auto o = orbit(c, Conic::any, 1e-4, 0.);
    double tof = duration(c, o, 50., 40.);
    gen::show(c, o);
    c.show("tof", tof);
    auto s = err_scale(o.rv, tof, o.mu);
    auto x = kep3::propagate_lagrangian(o.rv, tof, o.mu, false).first;
    auto e0 = ref::elements(ref::up(o.rv), o.mu), e1 = ref::elements(ref::up(x), o.mu);
    double R = ref::dnorm(x[0]), V = ref::dnorm(x[1]);
    // A change of the state by (s.r, s.v) changes the invariants by at most:
    double dh = R * s.v + V * s.r + eps * R * V;
    double den = o.mu / (R * R) * s.r + V * s.v + 8 * eps * (V * V + o.mu / R);
    c.ratio("angular momentum", dn(ref::norm(ref::sub(e0.h, e1.h))), dh + 8 * eps * ref::dnorm(o.rv[0]) * ref::dnorm(o.rv[1]));
    q E0 = ref::dot(ref::up(o.rv[1]), ref::up(o.rv[1])) / 2 - q(o.mu) / ref::norm(ref::up(o.rv[0]));
    q E1 = ref::dot(ref::up(x[1]), ref::up(x[1])) / 2 - q(o.mu) / ref::norm(ref::up(x[0]));
    double V0 = ref::dnorm(o.rv[1]);
    c.ratio("energy", dn(fabsq(E0 - E1)), den + 8 * eps * (V0 * V0 + o.mu / ref::dnorm(o.rv[0])));
    double h = dn(ref::norm(e0.h));
    double dev = (2 * V * dh + h * s.v) / o.mu + s.r / R * 2 + 16 * eps * (1 + V * h / o.mu);
    c.ratio("eccentricity vector", dn(ref::norm(ref::sub(e0.evec, e1.evec))), dev);
    c.label(bucket(o));
    c.nontrivial(tof != 0);
}

// Far from where it started: many revolutions, far out along the asymptotes.
PROP("K06", "far_away", 20000, 200000, "more than 50 revolutions or 6 units of hyperbolic anomaly")
{
    auto o = orbit(c, Conic::any, 1e-3, 0.);
    double x = 0;
    if (o.hyper) {
        // Mean anomaly reached at the given hyperbolic anomaly, measured from the pericentre.
        double H = c.real(3., 30.);
        x = o.e * std::sinh(H) - H;
    } else {
        x = 2 * pi * c.logreal(50., 1e7);
    }
    double tof = c.sign() * x / o.n();
    gen::show(c, o);
    c.show("tof", tof);
    auto s = err_scale(o.rv, tof, o.mu);
    auto got = kep3::propagate_lagrangian(o.rv, tof, o.mu, false);
    // The angular momentum is lost in r.v when the motion is nearly radial.
    double radial = ref::dnorm(o.rv[0]) * ref::dnorm(o.rv[1]) / std::sqrt(o.mu * o.p);
    compare(c, "lagrangian", got.first, ref::kepler(o.rv, tof, o.mu), s, radial);
    c.label(o.hyper ? "hyperbola" : "ellipse");
    c.label(tof < 0 ? "backward" : "forward");
    c.nontrivial(x > 6);
}

PROP("K07", "reversal_and_composition", 15000, 200000, "two legs of non zero duration")
{
    auto o = orbit(c, Conic::any, 1e-4, 0.);
    double t1 = duration(c, o, 10., 15.), t2 = duration(c, o, 10., 15.);
    gen::show(c, o);
    c.show("t1", t1);
    c.show("t2", t2);
    auto x1 = kep3::propagate_lagrangian(o.rv, t1, o.mu, false).first;
    auto s01 = err_scale(o.rv, t1, o.mu);
    // Forward and back.
    {
        auto s10 = err_scale(x1, -t1, o.mu, s01);
        auto back = kep3::propagate_lagrangian(x1, -t1, o.mu, false).first;
        compare(c, "forward and back", back, ref::up(o.rv), s10);
    }
    // Two legs are one leg of the total duration.
    {
        auto x2 = kep3::propagate_lagrangian(x1, t2, o.mu, false).first;
        auto s12 = err_scale(x1, t2, o.mu, s01);
        double t = t1 + t2;
        auto xt = kep3::propagate_lagrangian(o.rv, t, o.mu, false).first;
        auto st = err_scale(o.rv, t, o.mu);
        double dt = eps * (std::abs(t1) + std::abs(t2));
        auto f = ref::dyn(ref::up(xt), o.mu);
        double ac = dn(sqrtq(f[3] * f[3] + f[4] * f[4] + f[5] * f[5]));
        compare(c, "two legs", x2, ref::up(xt), {s12.r + st.r + dt * ref::dnorm(xt[1]), s12.v + st.v + dt * ac});
    }
    // Zero duration is the identity.
    auto id = kep3::propagate_lagrangian(o.rv, 0., o.mu, false).first;
    compare(c, "zero duration", id, ref::up(o.rv), {64 * eps * ref::dnorm(o.rv[0]) * (1 + std::abs(o.a()) / ref::dnorm(o.rv[0])), 64 * eps * ref::dnorm(o.rv[1]) * (1 + std::abs(o.a()) / ref::dnorm(o.rv[0]))});
    // One full period is the identity.
    if (!o.hyper) {
        double a = 1. / (2. / ref::dnorm(o.rv[0]) - ref::ddot(o.rv[1], o.rv[1]) / o.mu);
        double T = 2 * pi * std::sqrt(a * a * a / o.mu);
        auto k = static_cast<double>(c.integer(1, 5));
        auto xp = kep3::propagate_lagrangian(o.rv, k * T, o.mu, false).first;
        auto sp = err_scale(o.rv, k * T, o.mu);
        compare(c, "k periods", xp, ref::up(o.rv), {4 * sp.r, 4 * sp.v});
    }
    c.label(bucket(o));
    c.nontrivial(t1 != 0 && t2 != 0);
}

PROP("K07", "change_of_units_and_frame", 40000, 500000, "a rotation, reflection or change of units that is not the identity")
{
    auto o = orbit(c, Conic::any, 1e-4, 0.);
    double t = duration(c, o, 10., 15.);
    gen::show(c, o);
    c.show("tof", t);
    auto x = kep3::propagate_lagrangian(o.rv, t, o.mu, false).first;
    auto s = err_scale(o.rv, t, o.mu);
    // Powers of two: the scaled inputs are exact.
    int kl = static_cast<int>(c.integer(-20, 20)), kt = static_cast<int>(c.integer(-20, 20));
    double L = std::ldexp(1., kl), T = std::ldexp(1., kt);
    int p0 = static_cast<int>(c.integer(0, 2));
    std::array<double, 3> sg{c.sign(), c.sign(), c.sign()};
    c.show("length factor", L);
    c.show("time factor", T);
    state y{};
    for (std::size_t j = 0; j < 3; ++j) {
        auto m = (j + static_cast<std::size_t>(p0)) % 3;
        y[0][m] = sg[j] * o.rv[0][j] * L;
        y[1][m] = sg[j] * o.rv[1][j] * L / T;
    }
    auto xt = kep3::propagate_lagrangian(y, t * T, o.mu * L * L * L / T / T, false).first;
    state z{};
    for (std::size_t j = 0; j < 3; ++j) {
        auto m = (j + static_cast<std::size_t>(p0)) % 3;
        z[0][j] = sg[j] * xt[0][m] / L;
        z[1][j] = sg[j] * xt[1][m] / L * T;
    }
    compare(c, "change of units and axes", z, ref::up(x), {2 * s.r, 2 * s.v});
    c.label(bucket(o));
    c.nontrivial(kl != 0 || kt != 0 || p0 != 0 || sg[0] * sg[1] * sg[2] < 0);
}

PROP("K07", "universal_variables_and_elements_agree", 60000, 600000, "tof != 0")
{
    auto o = orbit(c, Conic::any, 1e-2, 0.);
    // The universal variable version brackets its root within 2 pi of the initial guess: see DESIGN.md for the range.
    double tof = duration(c, o, 3., 3.);
    gen::show(c, o);
    c.show("tof", tof);
    auto s = err_scale(o.rv, tof, o.mu);
    auto want = ref::kepler(o.rv, tof, o.mu);
    // Via elements: singular for i=0, pi and e=0; arc cosines lose half the digits at the apsides.
    auto el = ref::elements(ref::up(o.rv), o.mu);
    if (sinq(el.i) > 1e-2q && el.e > 1e-8q) {
        auto got = kep3::propagate_keplerian(o.rv, tof, o.mu, c.chance(0.5));
        c.check(!got.second, "propagate_keplerian returned a matrix it does not compute");
        double half = 6e-8;
        // Condition of the state with respect to the anomaly and the orientation.
        double sf = std::abs(dn(sinq(el.f))), sw = std::abs(dn(sinq(el.w))), sW = std::abs(dn(sinq(el.W)));
        auto ac = [&](double x) { return std::min(16 * eps / std::max(x, 1e-300), half); };
        double ef = ac(sf) + 32 * eps * (3 + ref::ddot(o.rv[1], o.rv[1]) * ref::dnorm(o.rv[0]) / o.mu) / dn(el.e);
        double eo = ac(sw) + ac(sW) + ac(dn(sinq(el.i))) + 64 * eps / dn(el.e) / dn(sinq(el.i));
        if (el.e < 1e-3q) {
            // The direction of the pericentre is known to eps / e, but the same one is used for w and for f: their sum
            // is not affected, unless the sign of r.v (the half of the orbit) does not follow it, close to an apside.
            double d = 32 * eps / dn(el.e);
            ef = ac(sf) + 128 * eps + d * d + (sf < 2 * d ? 4 * d : 0.);
            eo = ac(sw) + ac(sW) + ac(dn(sinq(el.i))) + 64 * eps / dn(sinq(el.i)) + d * d + (sw < 2 * d ? half : 0.);
        }
        auto t0 = ref::dnorm(o.rv[0]) * ref::dnorm(o.rv[0]) / dn(ref::norm(el.h)); // dt/df at the start
        auto f = ref::dyn(want, o.mu);
        double acc = dn(sqrtq(f[3] * f[3] + f[4] * f[4] + f[5] * f[5]));
        double rf = dn(ref::norm(want[0])), vf = dn(ref::norm(want[1]));
        compare(c, "elements", got.first, want,
                {20 * s.r / std::abs(1 - o.e) + (ef * t0 * vf + eo * rf) * 4, 20 * s.v / std::abs(1 - o.e) + (ef * t0 * acc + eo * vf) * 4});
    }
    c.label(bucket(o));
    c.nontrivial(tof != 0);
}

PROP("K07", "universal_variables", 60000, 600000, "tof != 0")
{
    auto o = orbit(c, Conic::any, 1e-3, 0.);
    double tof = duration(c, o, 1., 3.);
    gen::show(c, o);
    c.show("tof", tof);
    auto s = err_scale(o.rv, tof, o.mu);
    auto want = ref::kepler(o.rv, tof, o.mu);
    auto got = kep3::propagate_lagrangian_u(o.rv, tof, o.mu, c.chance(0.5));
    c.check(!got.second, "propagate_lagrangian_u returned a matrix it does not compute");
    compare(c, "universal variables", got.first, want, s, 8.);
    c.label(bucket(o));
    c.label(o.units);
    c.nontrivial(tof != 0);
}

PROP("K07", "vectorised", 10000, 100000, "at least two durations")
{
    auto o = orbit(c, Conic::any, 1e-3, 0.);
    auto n = static_cast<std::size_t>(c.integer(0, 12));
    bool stm = c.chance(0.5);
    std::vector<double> ts(n);
    for (auto &t : ts) {
        t = duration(c, o, 3., 6.);
        if (c.chance(0.1)) {
            t = 0.;
        }
    }
    if (n > 1 && c.chance(0.3)) {
        ts[1] = ts[0];
    }
    gen::show(c, o);
    c.show("tofs", ts);
    auto r = kep3::propagate_lagrangian_v(o.rv, ts, o.mu, stm);
    c.check(r.size() == n, "one result per duration is expected");
    for (std::size_t i = 0; i < n; ++i) {
        auto one = kep3::propagate_lagrangian(o.rv, ts[i], o.mu, stm);
        c.check(r[i].second.has_value() == stm, "the matrix must be present exactly when requested");
        auto s = err_scale(o.rv, ts[i], o.mu);
        compare(c, "vectorised", r[i].first, ref::up(one.first), s);
        if (stm) {
            for (std::size_t k = 0; k < 36; ++k) {
                double m = 0;
                for (std::size_t kk = 0; kk < 36; ++kk) {
                    if ((kk / 18 == k / 18) && ((kk % 6) / 3 == (k % 6) / 3)) {
                        m = std::max(m, std::abs((*one.second)[kk]));
                    }
                }
                c.close("vectorised matrix", (*r[i].second)[k], (*one.second)[k], 1e-10 * m);
            }
        }
    }
    c.label(stm ? "with matrices" : "states only");
    c.nontrivial(n >= 2);
}

namespace
{
using mat = std::array<std::array<q, 6>, 6>;
// Compares two 6x6 matrices in the units of the orbit (so that entries are comparable), entry by entry.
void compare_stm(Case &c, const std::string &what, const std::array<double, 36> &got, const mat &want, const Orbit &o, double tol)
{
    double L = ref::dnorm(o.rv[0]), V = std::max(ref::dnorm(o.rv[1]), std::sqrt(o.mu / L));
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            double s = (i < 3 ? 1. / L : 1. / V) * (j < 3 ? L : V);
            c.ratio(what, dn(fabsq(want[i][j] - q(got[6 * i + j]))) * s, tol,
                    [&]() { return what + ": wrong entry " + std::to_string(i) + "," + std::to_string(j); });
        }
    }
}
// Non-dimensional amplification of the problem: how much larger than one the scaled matrix is.
double growth(const mat &M, const Orbit &o)
{
    double L = ref::dnorm(o.rv[0]), V = std::max(ref::dnorm(o.rv[1]), std::sqrt(o.mu / L));
    double m = 1;
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            double s = (i < 3 ? 1. / L : 1. / V) * (j < 3 ? L : V);
            m = std::max(m, std::abs(dn(M[i][j])) * s);
        }
    }
    return m;
}
} // namespace

PROP("K08", "matrix_is_the_derivative_of_the_flow", 8000, 200000, "tof != 0")
{
    auto o = orbit(c, Conic::any, 1e-2, 0.);
    double tof = duration(c, o, c.chance(0.1) ? 1000. : 5., 8.);
    gen::show(c, o);
    c.show("tof", tof);
    auto M = ref::stm(ref::up(o.rv), tof, o.mu);
    auto got = kep3::propagate_lagrangian(o.rv, tof, o.mu, true);
    c.check(got.second.has_value(), "the matrix was requested and not returned");
    double R = ref::dnorm(o.rv[0]), al = std::abs(o.a()) / R;
    double g = growth(M, o);
    double rel = 3e-12 * g * g * (1 + al) * (1 + al) / std::abs(1 - o.e);
    compare_stm(c, "lagrangian matrix", *got.second, M, o, rel);
    c.label(bucket(o));
    c.nontrivial(tof != 0);
}

namespace
{
// Sine of the angle between position and velocity.
double sine(const std::array<std::array<double, 3>, 2> &rv)
{
    return ref::dnorm(ref::dcross(rv[0], rv[1])) / ref::dnorm(rv[0]) / ref::dnorm(rv[1]);
}
} // namespace

PROP("K08", "reynolds_matrix", 8000, 200000, "tof != 0")
{
    auto o = orbit(c, Conic::any, 1e-2, 5e-2);
    double tof = duration(c, o, c.chance(0.1) ? 1000. : 5., 8.);
    // The inversion works on badly scaled matrices when the units are not those of the orbit.
    bool natural = c.chance(0.7);
    if (natural) {
        double l = ref::dnorm(o.rv[0]), v = std::sqrt(o.mu / l);
        for (std::size_t i = 0; i < 3; ++i) {
            o.rv[0][i] /= l;
            o.rv[1][i] /= v;
        }
        o.mu = 1.;
        o.p /= l;
        tof *= v / l;
    }
    gen::show(c, o);
    c.show("tof", tof);
    auto M = ref::stm(ref::up(o.rv), tof, o.mu);
    auto got = kep3::propagate_stm_reynolds(o.rv, tof, o.mu, true);
    c.check(got.second.has_value(), "the matrix was requested and not returned");
    auto s = err_scale(o.rv, tof, o.mu);
    compare(c, "reynolds propagation", got.first, ref::kepler(o.rv, tof, o.mu), s);
    c.check(!kep3::propagate_stm_reynolds(o.rv, tof, o.mu, false).second, "a matrix was returned without being requested");
    double R = ref::dnorm(o.rv[0]), al = std::abs(o.a()) / R;
    double g = growth(M, o);
    // The method inverts a matrix made of the two end states, which is singular on a radial trajectory.
    double flat = std::min(sine(o.rv), sine(got.first));
    double rel = 1e-13 * g * g * (1 + al) * (1 + al) / std::abs(1 - o.e) / (flat * flat) * (natural ? 1. : 1e5);
    compare_stm(c, "reynolds matrix", *got.second, M, o, rel);
    // The same matrix from the two end states.
    auto m2 = kep3::stm_reynolds(o.rv, got.first, tof, o.mu);
    compare_stm(c, "reynolds matrix from states", m2, M, o, rel);
    c.label(bucket(o));
    c.label(natural ? "natural units" : "any units");
    c.nontrivial(tof != 0);
}

PROP("K08", "symplectic_and_composition", 20000, 500000, "two legs of non zero duration")
{
    auto o = orbit(c, Conic::any, 5e-2, 0.);
    double t1 = duration(c, o, 2., 5.), t2 = duration(c, o, 2., 5.);
    gen::show(c, o);
    c.show("t1", t1);
    c.show("t2", t2);
    auto p1 = kep3::propagate_lagrangian(o.rv, t1, o.mu, true);
    auto p2 = kep3::propagate_lagrangian(p1.first, t2, o.mu, true);
    auto p12 = kep3::propagate_lagrangian(o.rv, t1 + t2, o.mu, true);
    // In the units of the orbit, so that all entries are comparable.
    double L = ref::dnorm(o.rv[0]), V = std::max(ref::dnorm(o.rv[1]), std::sqrt(o.mu / L));
    auto scaled = [&](const std::array<double, 36> &m) {
        std::array<double, 36> r{};
        for (std::size_t i = 0; i < 6; ++i) {
            for (std::size_t j = 0; j < 6; ++j) {
                r[6 * i + j] = m[6 * i + j] * (i < 3 ? 1. / L : 1. / V) * (j < 3 ? L : V);
            }
        }
        return r;
    };
    auto A = scaled(*p1.second), B = scaled(*p2.second), C = scaled(*p12.second);
    auto big = [](const std::array<double, 36> &m) {
        double x = 1;
        for (double v : m) {
            x = std::max(x, std::abs(v));
        }
        return x;
    };
    double R1 = ref::dnorm(p1.first[0]);
    double al = 1 + std::abs(o.a()) / L + std::abs(o.a()) / R1;
    double ill = 4e-12 * al * al / std::abs(1 - o.e);
    // M^T J M = J
    double gA = big(A);
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            long double s = 0;
            for (std::size_t k = 0; k < 3; ++k) {
                s += static_cast<long double>(A[6 * k + i]) * A[6 * (k + 3) + j] - static_cast<long double>(A[6 * (k + 3) + i]) * A[6 * k + j];
            }
            double want = (j == i + 3) ? 1. : (i == j + 3) ? -1. : 0.;
            c.close("symplectic condition", static_cast<double>(s), want, ill * gA * gA * gA);
        }
    }
    double gB = big(B), gC = big(C);
    for (std::size_t i = 0; i < 6; ++i) {
        for (std::size_t j = 0; j < 6; ++j) {
            long double s = 0;
            for (std::size_t k = 0; k < 6; ++k) {
                s += static_cast<long double>(B[6 * i + k]) * A[6 * k + j];
            }
            c.close("composition", static_cast<double>(s), C[6 * i + j], ill * (gA * gB * (gA + gB) + gC * gC) * 10);
        }
    }
    c.label(bucket(o));
    c.nontrivial(t1 != 0 && t2 != 0);
}
