// K09, K10, K11: Lambert's problem.
#include <sstream>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <kep3/lambert_problem.hpp>

#include "gen.hpp"
#include "prop.hpp"

using namespace gen;
using ref::dn;
using ref::q;
using ref::qv3;

namespace
{
struct Problem {
    v3 r0{}, r1{};
    double tof = 1, mu = 1, theta = 1, R0 = 1, R1 = 1, s = 1, chord = 1;
    bool cw = false;
    unsigned revs = 0;
    [[nodiscard]] double T() const
    {
        return tof * std::sqrt(2 * mu / (s * s * s));
    }
};

// Time of flight of the N revolution transfer with Lambert variable x, from Lagrange's equation (ellipses only).
q lagrange_T(q lambda, q x, unsigned N)
{
    q a = 1 / (1 - x * x);
    q alfa = 2 * acosq(x);
    q beta = 2 * asinq(sqrtq(lambda * lambda / a));
    if (lambda < 0) {
        beta = -beta;
    }
    return a * sqrtq(a) * ((alfa - sinq(alfa)) - (beta - sinq(beta)) + 2 * ref::qpi * N) / 2;
}
q lambda_of(const Problem &p)
{
    auto a = ref::up(p.r0), b = ref::up(p.r1);
    q A = ref::norm(a), B = ref::norm(b), C = ref::norm(ref::sub(a, b));
    q s = (A + B + C) / 2;
    // lambda = sqrt(r0 r1) cos(theta/2)/s, theta in (0,2pi) in the direction of motion
    q ct = ref::dot(a, b) / (A * B);
    q c2 = sqrtq(fmaxq(0, (1 + ct) / 2));
    bool longway = (ref::cross(a, b)[2] < 0) != p.cw;
    q l = sqrtq(A * B) * c2 / s;
    return longway ? -l : l;
}
// Shortest time of flight with N revolutions and where it is.
std::pair<q, q> minimum_T(q lambda, unsigned N)
{
    q lo = -0.9999q, hi = 0.9999q;
    const q g = 0.6180339887498948482045868343656381177q;
    q a = hi - g * (hi - lo), b = lo + g * (hi - lo), fa = lagrange_T(lambda, a, N), fb = lagrange_T(lambda, b, N);
    for (int i = 0; i < 75; ++i) {
        if (fa < fb) {
            hi = b, b = a, fb = fa;
            a = hi - g * (hi - lo), fa = lagrange_T(lambda, a, N);
        } else {
            lo = a, a = b, fa = fb;
            b = lo + g * (hi - lo), fb = lagrange_T(lambda, b, N);
        }
    }
    q x = (lo + hi) / 2;
    return {lagrange_T(lambda, x, N), x};
}

void finish(Problem &p)
{
    p.R0 = ref::dnorm(p.r0);
    p.R1 = ref::dnorm(p.r1);
    p.chord = ref::dnorm(ref::dsub(p.r0, p.r1));
    p.s = (p.R0 + p.R1 + p.chord) / 2;
}
void show(Case &c, const Problem &p)
{
    c.show("r0", p.r0);
    c.show("r1", p.r1);
    c.show("tof", p.tof);
    c.show("mu", p.mu);
    c.show("cw", p.cw);
    c.show("multi_revs", p.revs);
}

// A transfer geometry and a duration. The plane is inclined away from the z axis, the angle away from 0 and pi.
Problem problem(Case &c)
{
    Problem p;
    auto u = units(c);
    p.mu = u.mu;
    double i = 0;
    switch (c.integer(0, 4)) {
        case 0:
            i = 0.;
            break;
        case 1:
            i = pi;
            break;
        case 2:
            i = c.logreal(1e-6, 0.5);
            break;
        default:
            i = c.chance(0.1) ? pi / 2 + c.sign() * c.logreal(1e-8, 1e-2) : c.chance(0.5) ? c.real(0., pi / 2 - 1e-2) : c.real(pi / 2 + 1e-2, pi);
    }
    double W = angle(c);
    double u0 = angle(c);
    double th = 0;
    switch (c.integer(0, 6)) {
        case 0:
            th = c.pick({pi / 2, pi / 3, 3 * pi / 2, 2 * pi / 3});
            break;
        case 1:
            th = pi + c.sign() * c.logreal(1e-6, 0.5);
            break;
        case 2:
            th = c.logreal(1e-2, 0.5);
            th = c.chance(0.5) ? 2 * pi - th : th;
            break;
        default:
            th = c.real(0.05, 2 * pi - 0.05);
            if (std::abs(th - pi) < 1e-2) {
                th = pi - 1e-2;
            }
    }
    double R0 = u.L * c.logreal(0.2, 5.), R1 = c.chance(0.1) ? R0 : R0 * c.logreal(0.1, 10.);
    double cw_ = std::cos(W), sw = std::sin(W), ci = std::cos(i), si = std::sin(i);
    auto at = [&](double R, double u) {
        double a = std::cos(u), b = std::sin(u);
        return v3{R * (cw_ * a - sw * ci * b), R * (sw * a + cw_ * ci * b), R * si * b};
    };
    p.r0 = at(R0, u0);
    p.r1 = at(R1, u0 + th);
    p.cw = c.chance(0.4);
    p.theta = th;
    p.revs = static_cast<unsigned>(c.chance(0.04) ? c.integer(7, 60) : c.integer(0, 6));
    finish(p);
    // Non dimensional durations: deep hyperbola, near the parabola, near x=0, multiple revolutions, near a minimum.
    q lambda = lambda_of(p);
    double l = dn(lambda);
    double T00 = std::acos(l) + l * std::sqrt(1 - l * l), T1 = 2. / 3. * (1 - l * l * l);
    double T = 1;
    switch (c.integer(0, 6)) {
        case 0:
            T = T1 * c.logreal(1e-2, 1.);
            break;
        case 1:
            T = T1 * (1 + c.sign() * c.logreal(1e-10, 0.1));
            break;
        case 2:
            T = T00 * (1 + c.sign() * c.logreal(1e-12, 0.1));
            break;
        case 3:
            T = c.logreal(10., p.revs > 6 ? 400. : 200.);
            break;
        case 4: {
            auto N = static_cast<unsigned>(c.integer(1, 4));
            T = dn(minimum_T(lambda, N).first) * (1 + c.sign() * c.logreal(1e-8, 1e-1));
            break;
        }
        default:
            T = c.real(T1, 30.);
    }
    p.tof = T / std::sqrt(2 * p.mu / (p.s * p.s * p.s));
    return p;
}

kep3::lambert_problem solve(const Problem &p)
{
    return kep3::lambert_problem(p.r0, p.r1, p.tof, p.mu, p.cw, p.revs);
}

// Loss of digits of the geometry alone.
double geometry(const Problem &p)
{
    double st = ref::dnorm(ref::dcross(p.r0, p.r1)) / (p.R0 * p.R1);
    double sc = p.s / p.chord;
    double rho = (p.R0 - p.R1) / p.chord, s2 = 1 - rho * rho;
    return 1. / st + sc / s2;
}
} // namespace

PROP("K09", "solutions_fly_the_transfer", 12000, 300000, "at least one solution with at least one full revolution, or a hyperbola")
{
    auto p = problem(c);
    show(c, p);
    auto lp = solve(p);
    auto n = lp.get_v0().size();
    c.check(n >= 1 && n == lp.get_v1().size(), "no solutions, or a different number of initial and final velocities");
    double g = geometry(p);
    bool interesting = false;
    for (std::size_t k = 0; k < n; ++k) {
        unsigned N = static_cast<unsigned>((k + 1) / 2);
        const auto &v0 = lp.get_v0()[k];
        const auto &v1 = lp.get_v1()[k];
        double V0 = ref::dnorm(v0), V1 = ref::dnorm(v1);
        c.check(std::isfinite(V0) && std::isfinite(V1), "a velocity is not finite");
        state x0{p.r0, v0};
        double vc = std::sqrt(p.mu / p.s);
        ErrScale in{0., 8 * eps * g * (V0 + vc)};
        auto s = err_scale(x0, p.tof, p.mu, in);
        auto want = ref::kepler(x0, p.tof, p.mu);
        c.ratio("arrives", ref::dist(p.r1, want[0]), s.r + 8 * eps * g * p.R1, [&]() { return "solution " + std::to_string(k) + " does not arrive at the target"; });
        c.ratio("arrival velocity", ref::dist(v1, want[1]), s.v + 8 * eps * g * (V1 + vc), [&]() { return "solution " + std::to_string(k) + ": wrong arrival velocity"; });
        // Direction of motion.
        double hz = p.r0[0] * v0[1] - p.r0[1] * v0[0];
        c.check((hz < 0) == p.cw, "solution " + std::to_string(k) + " moves in the wrong direction");
        // Number of complete revolutions.
        double alpha = 2 / p.R0 - V0 * V0 / p.mu;
        double turns = alpha > 0 ? p.tof * std::sqrt(p.mu * alpha * alpha * alpha) / (2 * pi) : 0.;
        c.check(turns >= N - 1e-9 * (N + 1) && turns <= N + 1 + 1e-9 * (N + 1), "solution " + std::to_string(k) + " makes " + std::to_string(turns) + " turns");
        interesting = interesting || N > 0 || alpha < 0;
    }
    c.label(std::to_string(std::min<std::size_t>(n, 9)) + " solutions");
    c.label(p.cw ? "clockwise" : "counterclockwise");
    c.nontrivial(interesting);
}

PROP("K10", "number_and_order_of_solutions", 12000, 300000, "multiple revolutions requested and T within reach of one revolution")
{
    auto p = problem(c);
    show(c, p);
    auto lp = solve(p);
    unsigned Nmax = lp.get_Nmax();
    auto n = lp.get_v0().size();
    c.check(n == 2u * Nmax + 1u && lp.get_v1().size() == n && lp.get_x().size() == n && lp.get_iters().size() == n, "2 Nmax + 1 solutions expected in every list");
    c.check(Nmax <= p.revs, "more revolutions than requested");
    q lambda = lambda_of(p);
    q C = ref::norm(ref::sub(ref::up(p.r0), ref::up(p.r1))), S = (C + ref::norm(ref::up(p.r0)) + ref::norm(ref::up(p.r1))) / 2;
    q T = q(p.tof) * sqrtq(2 * q(p.mu) / (S * S * S));
    double g = geometry(p);
    unsigned expect = 0;
    bool border = false;
    std::vector<double> xm;
    for (unsigned N = 1; N <= p.revs; ++N) {
        if (dn(T) < N * pi * (1 - 1e-9)) {
            break;
        }
        auto m = minimum_T(lambda, N);
        xm.push_back(dn(m.second));
        double rel = dn((T - m.first) / m.first);
        // The minimum itself is found to a few digits less than the rest.
        if (std::abs(rel) < 1e-9 + 1e-13 * g) {
            border = true;
        } else if (rel > 0) {
            expect = N;
        }
    }
    if (border) {
        c.label("at the border between N and N+1");
    } else {
        c.check(Nmax == expect, "Nmax is " + std::to_string(Nmax) + ", solutions exist up to " + std::to_string(expect) + " revolutions");
    }
    // 0 revolutions, then for each N the left branch and the right branch.
    for (unsigned N = 1; N <= Nmax; ++N) {
        double xl = lp.get_x()[2 * N - 1], xr = lp.get_x()[2 * N];
        if (N <= xm.size() && !border) {
            double x = xm[N - 1];
            c.check(xl <= x + 1e-6 && xr >= x - 1e-6, "left and right branch are not on the two sides of the minimum");
            auto m = lagrange_T(lambda, q(x), N);
            if (dn((T - m) / m) > 1e-6 + 1e-10 * g) {
                c.check(xl < xr, "the two branches are the same solution");
            }
        }
    }
    // The Lambert variable is tied to the semi-major axis.
    for (std::size_t k = 0; k < n; ++k) {
        double V2 = ref::ddot(lp.get_v0()[k], lp.get_v0()[k]);
        double x = lp.get_x()[k];
        double inva = 2 / p.R0 - V2 / p.mu;
        c.close("semi-major axis from x", 2 * (1 - x * x) / p.s, inva, 8 * eps * g * (2 / p.R0 + V2 / p.mu));
        c.check(lp.get_iters()[k] <= 15u, "more iterations than allowed");
    }
    c.label("Nmax=" + std::to_string(Nmax));
    c.nontrivial(p.revs > 0 && dn(T) > pi);
}

PROP("K10", "every_connecting_orbit_is_found", 12000, 300000, "the orbit makes at least one revolution or the motion is clockwise")
{
    auto o = orbit(c, Conic::any, 5e-2, 0., 5.);
    double tof = std::abs(duration(c, o, 4., 6.));
    if (!o.hyper && c.chance(0.5)) {
        tof = 2 * pi * c.real(1., c.chance(0.05) ? 60. : 5.) / o.n();
    }
    auto x1 = ref::kepler(o.rv, tof, o.mu);
    Problem p;
    p.r0 = o.rv[0];
    p.r1 = dn(x1[0]);
    p.tof = tof;
    p.mu = o.mu;
    finish(p);
    double hz = p.r0[0] * o.rv[1][1] - p.r0[1] * o.rv[1][0];
    double h = ref::dnorm(ref::dcross(o.rv[0], o.rv[1]));
    if (std::abs(hz) < 1e-6 * h) {
        c.discard();
    }
    p.cw = hz < 0;
    double st = ref::dnorm(ref::dcross(p.r0, p.r1)) / (p.R0 * p.R1);
    if (st < 1e-3 || !(tof > 0) || p.R1 > 1e3 * p.R0 || p.R0 > 1e3 * p.R1) {
        c.discard();
    }
    double turns = o.hyper ? 0. : tof * o.n() / (2 * pi);
    auto N = static_cast<unsigned>(turns);
    p.revs = N + static_cast<unsigned>(c.integer(0, 2));
    show(c, p);
    c.show("v0", o.rv[1]);
    // Conditioning: dv0 = (dr1/dv0)^-1 dr1.
    auto M = ref::stm(ref::up(o.rv), tof, o.mu);
    std::array<qv3, 3> B{};
    for (std::size_t i = 0; i < 3; ++i) {
        for (std::size_t j = 0; j < 3; ++j) {
            B[i][j] = M[i][j + 3];
        }
    }
    auto c0 = ref::cross(B[1], B[2]), c1 = ref::cross(B[2], B[0]), c2 = ref::cross(B[0], B[1]);
    q det = ref::dot(B[0], c0);
    q inv = (ref::norm(c0) + ref::norm(c1) + ref::norm(c2)) / fabsq(det);
    double V0 = ref::dnorm(o.rv[1]), V1 = dn(ref::norm(x1[1]));
    double cond = dn(inv) * (p.R1 + V1 * tof) / V0;
    if (!(cond < 1e6)) {
        c.discard();
    }
    auto lp = solve(p);
    double best = 1e300;
    std::size_t at = 0;
    for (std::size_t k = 0; k < lp.get_v0().size(); ++k) {
        double d = ref::dnorm(ref::dsub(lp.get_v0()[k], o.rv[1]));
        if (d < best) {
            best = d;
            at = k;
        }
    }
    auto s = err_scale(o.rv, tof, o.mu);
    double g = geometry(p);
    c.ratio("orbit among the solutions", best, dn(inv) * (s.r + 8 * eps * g * (p.R1 + V1 * tof)) + 8 * eps * g * V0 + 8 * eps * std::sqrt(p.mu / p.s) * g,
            [&]() { return "an orbit with " + std::to_string(turns) + " turns that connects the two positions is not among the " + std::to_string(lp.get_v0().size()) + " solutions"; });
    c.check((at + 1) / 2 == N || std::abs(turns - std::round(turns)) < 1e-9, "the orbit was found under the wrong number of revolutions");
    c.label(std::to_string(N) + " revs");
    c.label(p.cw ? "clockwise" : "counterclockwise");
    c.nontrivial(N > 0 || p.cw);
}

namespace
{
// Difference between two solutions, in units of what the conditioning allows.
void same(Case &c, const std::string &what, const Problem &p, const v3 &got, const v3 &want, double cond)
{
    double V = ref::dnorm(want) + std::sqrt(p.mu / p.s);
    c.ratio(what, ref::dnorm(ref::dsub(got, want)), 8 * eps * geometry(p) * cond * V, [&]() { return what + ": different solutions"; });
}
} // namespace

PROP("K10", "symmetries", 12000, 300000, "at least three solutions compared")
{
    auto p = problem(c);
    show(c, p);
    auto lp = solve(p);
    auto n = lp.get_v0().size();
    // How strongly x reacts to rounding: large next to the minimum of a branch.
    std::vector<double> cond(n, 1.);
    double T = p.T();
    q lambda = lambda_of(p);
    double l = dn(lambda);
    for (std::size_t k = 0; k < n; ++k) {
        double x = lp.get_x()[k], y = std::sqrt(1 - l * l * (1 - x * x));
        double dT = std::abs(x - 1) < 1e-3 ? 0.4 * std::abs(1 - l * l * l * l * l) : std::abs((3 * T * x - 2 + 2 * l * l * l * x / y) / (1 - x * x));
        cond[k] = 1 + T / dT * 10 / (1 + std::abs(x));
        if (k > 0 && cond[k] > 1e5) {
            c.label("next to a minimum");
            c.discard();
        }
    }
    // Time reversal: the same orbits flown backwards.
    {
        Problem r = p;
        std::swap(r.r0, r.r1);
        r.cw = !p.cw;
        auto lr = solve(r);
        c.check(lr.get_v0().size() == n, "a different number of solutions for the reversed transfer");
        for (std::size_t k = 0; k < n; ++k) {
            auto neg = [](const v3 &a) { return v3{-a[0], -a[1], -a[2]}; };
            same(c, "reversed", p, neg(lr.get_v1()[k]), lp.get_v0()[k], cond[k]);
            same(c, "reversed", p, neg(lr.get_v0()[k]), lp.get_v1()[k], cond[k]);
        }
    }
    // Reflection through a plane containing the z axis swaps the two directions of motion.
    {
        auto m = static_cast<std::size_t>(c.integer(0, 1));
        auto flip = [m](v3 a) {
            a[m] = -a[m];
            return a;
        };
        Problem r = p;
        r.r0 = flip(p.r0), r.r1 = flip(p.r1);
        r.cw = !p.cw;
        auto lr = solve(r);
        c.check(lr.get_v0().size() == n, "a different number of solutions for the reflected transfer");
        for (std::size_t k = 0; k < n; ++k) {
            same(c, "reflected", p, flip(lr.get_v0()[k]), lp.get_v0()[k], cond[k]);
            same(c, "reflected", p, flip(lr.get_v1()[k]), lp.get_v1()[k], cond[k]);
        }
        // Reflection through the xy plane keeps it.
        auto flipz = [](v3 a) {
            a[2] = -a[2];
            return a;
        };
        Problem z = p;
        z.r0 = flipz(p.r0), z.r1 = flipz(p.r1);
        auto lz = solve(z);
        c.check(lz.get_v0().size() == n, "a different number of solutions for the transfer reflected through xy");
        for (std::size_t k = 0; k < n; ++k) {
            same(c, "reflected in z", p, flipz(lz.get_v0()[k]), lp.get_v0()[k], cond[k]);
        }
    }
    // Units.
    {
        double L = std::ldexp(1., static_cast<int>(c.integer(-20, 20))), Tt = std::ldexp(1., static_cast<int>(c.integer(-20, 20)));
        Problem r = p;
        for (std::size_t i = 0; i < 3; ++i) {
            r.r0[i] *= L;
            r.r1[i] *= L;
        }
        r.tof *= Tt;
        r.mu *= L * L * L / Tt / Tt;
        auto lr = solve(r);
        c.check(lr.get_v0().size() == n, "a different number of solutions in other units");
        for (std::size_t k = 0; k < n; ++k) {
            v3 a = lr.get_v0()[k], b = lr.get_v1()[k];
            for (std::size_t i = 0; i < 3; ++i) {
                a[i] *= Tt / L;
                b[i] *= Tt / L;
            }
            same(c, "units", p, a, lp.get_v0()[k], cond[k]);
            same(c, "units", p, b, lp.get_v1()[k], cond[k]);
        }
    }
    // Asking for fewer or more revolutions does not change the solutions both have.
    {
        Problem r = p;
        r.revs = static_cast<unsigned>(c.integer(0, 12));
        auto lr = solve(r);
        auto m = std::min(n, lr.get_v0().size());
        c.check(r.revs < p.revs || lr.get_v0().size() >= n, "fewer solutions when more revolutions are allowed");
        for (std::size_t k = 0; k < m; ++k) {
            same(c, "other revolution limit", p, lr.get_v0()[k], lp.get_v0()[k], cond[k]);
            same(c, "other revolution limit", p, lr.get_v1()[k], lp.get_v1()[k], cond[k]);
        }
    }
    c.label(std::to_string(std::min<std::size_t>(n, 9)) + " solutions");
    c.nontrivial(n >= 3);
}

namespace
{
template <typename F>
bool throws_domain_error(F &&f)
{
    try {
        f();
    } catch (const std::domain_error &) {
        return true;
    }
    return false;
}
} // namespace

PROP("K11", "rejected_problems", 20000, 400000, "the input is invalid")
{
    auto p = problem(c);
    long kind = c.integer(0, 4);
    if (kind == 1) {
        p.tof = c.chance(0.3) ? 0. : -p.tof;
    } else if (kind == 2) {
        p.mu = c.chance(0.3) ? 0. : -p.mu;
    } else if (kind == 3) {
        // The plane of motion contains the z axis: no clockwise or counterclockwise. Zero third component exactly.
        auto m = static_cast<std::size_t>(c.integer(0, 1));
        p.r0[m] = 0.;
        p.r1[m] = 0.;
        if (ref::dnorm(p.r0) == 0. || ref::dnorm(p.r1) == 0. || ref::dnorm(ref::dcross(p.r0, p.r1)) < 1e-3 * ref::dnorm(p.r0) * ref::dnorm(p.r1)) {
            c.discard();
        }
    } else if (kind == 4) {
        // Aligned or opposite positions along an axis: no plane at all.
        auto m = static_cast<std::size_t>(c.integer(0, 2));
        v3 a{}, b{};
        a[m] = p.R0 * c.sign();
        b[m] = p.R1 * c.sign();
        p.r0 = a, p.r1 = b;
    }
    show(c, p);
    bool thrown = throws_domain_error([&]() { solve(p); });
    c.check(thrown == (kind != 0), kind == 0 ? "a valid problem was rejected" : "an invalid problem was accepted");
    static const char *names[] = {"valid", "tof <= 0", "mu <= 0", "plane contains z", "aligned positions"};
    c.label(names[kind]);
    c.nontrivial(kind != 0);
}

PROP("K11", "object_reports_its_problem_and_survives_storage", 8000, 150000, "at least three solutions")
{
    auto p = problem(c);
    show(c, p);
    auto lp = solve(p);
    c.check(lp.get_r0() == p.r0 && lp.get_r1() == p.r1 && lp.get_tof() == p.tof && lp.get_mu() == p.mu, "the getters do not return the arguments");
    auto text = [](const kep3::lambert_problem &l) {
        std::ostringstream s;
        s << l;
        return s.str();
    };
    auto same_as = [&](const kep3::lambert_problem &b, const char *how) {
        c.check(b.get_r0() == lp.get_r0() && b.get_r1() == lp.get_r1() && b.get_tof() == lp.get_tof() && b.get_mu() == lp.get_mu() && b.get_v0() == lp.get_v0() && b.get_v1() == lp.get_v1()
                    && b.get_x() == lp.get_x() && b.get_iters() == lp.get_iters() && b.get_Nmax() == lp.get_Nmax(),
                std::string(how) + ": a getter changed");
        c.check(text(b) == text(lp), std::string(how) + ": the printed form changed");
    };
    Problem p2 = problem(c);
    {
        std::stringstream ss;
        {
            boost::archive::binary_oarchive a(ss);
            a << lp;
        }
        auto b = solve(p2);
        {
            boost::archive::binary_iarchive a(ss);
            a >> b;
        }
        same_as(b, "binary archive");
        // and it can be stored again
        std::stringstream s2;
        {
            boost::archive::text_oarchive a(s2);
            a << b;
        }
        kep3::lambert_problem d;
        {
            boost::archive::text_iarchive a(s2);
            a >> d;
        }
        same_as(d, "text archive");
    }
    {
        kep3::lambert_problem copy(lp);
        same_as(copy, "copy");
        auto other = solve(p2);
        other = lp;
        same_as(other, "assignment");
        auto moved = std::move(copy);
        same_as(moved, "move");
    }
    // Solving again gives the same bits: no state is shared between problems.
    same_as(solve(p), "solved again");
    auto t = text(lp);
    c.check(t.find("Maximum number of revolutions: " + std::to_string(lp.get_Nmax())) != std::string::npos, "the printed form does not state the number of revolutions");
    c.nontrivial(lp.get_v0().size() >= 3);
}
