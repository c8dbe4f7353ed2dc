// K03, K04, K05: conversions between Cartesian states, classical and modified equinoctial elements.
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>

#include "gen.hpp"

using namespace gen;
using ref::angdiff;
using ref::d6;
using ref::dn;
using ref::q;

namespace
{
// First-order error bounds (a few ulps of the inputs, amplified by each quantity's own condition) for elements computed
// from a state in double precision. The arc cosines lose half the digits next to 0 and pi: acos_err accounts for it.
struct Bounds {
    double a, e, i, W, w, f, p, dir;
};
double acos_err(double arg_err, double s)
{
    s = std::abs(s);
    return std::min(s > 0 ? arg_err / s : 1e300, std::sqrt(2 * arg_err)) + arg_err;
}
Bounds bounds(const ref::Elem &el, const state &rv, double mu)
{
    const double C = 16 * eps;
    double R = ref::dnorm(rv[0]), V = ref::dnorm(rv[1]), h = dn(ref::norm(el.h));
    double kap = R * V / h, e = dn(el.e), si = std::abs(dn(sinq(el.i)));
    double de = C * (1 + V * V * R / mu) * kap;
    Bounds b{};
    b.e = de;
    b.p = C * kap * dn(el.p);
    double om = std::abs(1 - e * e);
    b.a = std::abs(dn(el.a)) * (C * kap + 2 * e * de / om);
    b.dir = C * kap;
    b.i = acos_err(C * kap, si);
    double dnode = C * kap / si;
    b.W = dnode + acos_err(C, dn(sinq(el.W)));
    double dw = dnode + (e > 0 ? de / e : 1e300);
    b.w = dw + acos_err(C, dn(sinq(el.w))) + de / (e * si);
    b.f = de / e + acos_err(C, dn(sinq(el.f))) + C * V * h / (mu * e);
    return b;
}

void to_vec(Case &c, const char *name, const state &s)
{
    c.show(name, s);
}

// States at an exact apside or with axis-aligned vectors: the places where an arc cosine meets +-1.
state apsidal(Case &c, double mu, double &e_out)
{
    double L = c.pick({1., 1.495978707e11, 7000.});
    v3 d{};
    switch (c.integer(0, 3)) {
        case 0:
            d = {1., 0., 0.};
            break;
        case 1:
            d = {0., c.sign(), 0.};
            break;
        default:
            d = direction(c);
    }
    double R = L * c.logreal(0.3, 3.);
    v3 t{};
    for (;;) {
        t = direction(c);
        v3 w = ref::dcross(d, t);
        if (ref::dnorm(w) > 0.2) {
            t = ref::dcross(w, d);
            break;
        }
        c.discard();
    }
    double n = ref::dnorm(t);
    double vc = std::sqrt(mu / R);
    double k = c.chance(0.5) ? c.real(0.3, 0.97) : c.real(1.03, 1.39);
    if (c.chance(0.2)) {
        k = c.real(1.44, 3.);
    }
    e_out = std::abs(k * k - 1);
    state s{};
    for (std::size_t j = 0; j < 3; ++j) {
        s[0][j] = R * d[j];
        s[1][j] = k * vc * t[j] / n;
    }
    return s;
}

void check_elements(Case &c, const state &rv, double mu)
{
    auto el = ref::elements(ref::up(rv), q(mu));
    auto b = bounds(el, rv, mu);
    auto par = kep3::ic2par(rv, mu);
    for (double x : par) {
        c.check(std::isfinite(x), "ic2par returned a non finite element for a regular orbit");
    }
    double e = dn(el.e);
    c.close("eccentricity", par[1], e, b.e);
    c.close("semi-major axis", par[0], dn(el.a), b.a);
    c.check((par[1] < 1) == (par[0] > 0), "the semi-major axis must be positive for e<1 and negative for e>1");
    c.close("inclination", par[2], dn(el.i), b.i);
    c.ratio("ascending node", angdiff(par[3], el.W), b.W);
    c.ratio("argument of pericentre", angdiff(par[4], el.w), b.w);
    c.ratio("true anomaly", angdiff(par[5], el.f), b.f);
    c.check(par[2] >= 0 && par[2] <= pi + 1e-15, "the inclination is outside [0, pi]");
    for (int k = 3; k < 6; ++k) {
        c.check(par[static_cast<std::size_t>(k)] >= 0 && par[static_cast<std::size_t>(k)] <= 2 * pi + 1e-15, "an angle is outside [0, 2 pi]");
    }
    // The same elements give the state back.
    if (!(e > 1 && std::cos(par[5]) <= -1 / par[1])) {
        auto back = kep3::par2ic(par, mu);
        double R = ref::dnorm(rv[0]), V = ref::dnorm(rv[1]);
        double amp = b.i + b.W + b.w + b.f + b.a / std::abs(dn(el.a)) + b.e / std::abs(1 - e);
        double stretch = 1 / (1 - std::min(0.999999, std::abs(dn(el.f)) > 0 ? e * std::max(0., -dn(cosq(el.f))) : 0.));
        if (e > 1) {
            stretch = e / dn(1 + el.e * cosq(el.f));
        }
        c.ratio("state round trip (position)", ref::dnorm(ref::dsub(back[0], rv[0])), 4 * R * amp * stretch);
        c.ratio("state round trip (velocity)", ref::dnorm(ref::dsub(back[1], rv[1])), 4 * (V + mu * R / dn(ref::norm(el.h)) / R) * amp * stretch);
    }
}
} // namespace

PROP("K03", "elements_of_a_state", 200000, 5000000, "e>1e-6 and the orbit is inclined: no element is singular")
{
    auto o = orbit(c, Conic::any, 1e-4, 1e-7);
    gen::show(c, o);
    auto el = ref::elements(ref::up(o.rv), q(o.mu));
    if (el.e < 1e-9q || sinq(el.i) < 1e-9q || fabsq(el.e - 1) < 1e-7q) {
        c.discard();
    }
    check_elements(c, o.rv, o.mu);
    c.label(o.units);
    c.nontrivial(o.e > 1e-6);
}

PROP("K03", "apsides_and_axes", 60000, 2000000, "always: an exact apside or axis-aligned state")
{
    double mu = c.pick({1., 398600.4418, 1.32712440018e20}), e = 0;
    auto rv = apsidal(c, mu, e);
    to_vec(c, "rv", rv);
    c.show("mu", mu);
    auto el = ref::elements(ref::up(rv), q(mu));
    if (sinq(el.i) < 1e-4q || fabsq(el.e - 1) < 1e-3q) {
        c.discard();
    }
    check_elements(c, rv, mu);
    c.label(e > 1 ? "hyperbola" : "ellipse");
    c.nontrivial();
}

PROP("K03", "state_of_elements", 200000, 5000000, "always: an inclined orbit")
{
    auto o = orbit(c, Conic::any, 1e-5, 0.);
    if (o.hyper && c.chance(0.2)) {
        double fmax = std::acos(-1 / o.e);
        o.f = c.sign() * (fmax - c.logreal(1e-6, 1e-3));
    }
    std::array<double, 6> par{o.p / (1 - o.e * o.e), o.e, o.i, o.W, o.w, o.f};
    if (o.hyper && c.chance(0.5) && o.f < 0) {
        par[5] += 2 * pi; // documented range of the anomaly
    }
    c.show("par", par);
    c.show("mu", o.mu);
    auto s = kep3::par2ic(par, o.mu);
    q p = q(par[0]) * (1 - q(par[1]) * par[1]);
    auto r = ref::from_elements(p, par[1], par[2], par[3], par[4], par[5], o.mu);
    double den = dn(1 + q(par[1]) * cosq(q(par[5])));
    double rel = 24 * eps * (1 + o.e * (1 + std::abs(par[5])) / den + 1 / std::abs(1 - o.e * o.e) * (1 + o.e * o.e));
    c.ratio("position", ref::dist(s[0], r[0]), dn(ref::norm(r[0])) * rel);
    double vs = dn(sqrtq(o.mu / p)) * (1 + o.e);
    c.ratio("velocity", ref::dist(s[1], r[1]), vs * 24 * eps * (1 + (1 + o.e * o.e) / std::abs(1 - o.e * o.e)));
    // Elements -> state -> elements.
    auto el = ref::elements(ref::up(s), q(o.mu));
    if (o.e > 1e-6 && den > 1e-3) {
        auto b = bounds(el, s, o.mu);
        auto par2 = kep3::ic2par(s, o.mu);
        double x = 10 * rel * (1 + 1 / o.e + 1 / std::sin(o.i)) * (1 + (o.hyper ? o.e / den : 0.)) / std::max(1e-3, std::min(1., std::abs(1 - o.e)));
        c.close("e round trip", par2[1], par[1], b.e + x);
        c.close("a round trip", par2[0], par[0], b.a + std::abs(par[0]) * x);
        c.close("i round trip", par2[2], par[2], b.i + x);
        c.ratio("W round trip", angdiff(par2[3], par[3]), b.W + x);
        c.ratio("w round trip", angdiff(par2[4], par[4]), b.w + x);
        c.ratio("f round trip", angdiff(par2[5], par[5]), b.f + x);
    }
    c.label(o.units);
    c.nontrivial();
}

PROP("K03", "inconsistent_elements_rejected", 40000, 400000, "always: inconsistent (a,e) or an anomaly beyond the asymptote")
{
    auto o = orbit(c, Conic::any, 1e-3, 0.);
    std::array<double, 6> par{o.p / (1 - o.e * o.e), o.e, o.i, o.W, o.w, o.f};
    if (c.chance(0.5)) {
        par[0] = -par[0];
        c.label("sign of a");
    } else {
        if (!o.hyper) {
            c.discard();
        }
        double fmax = std::acos(-1 / o.e);
        par[5] = fmax + c.real(1e-6, 2 * (pi - fmax) - 2e-6);
        if (std::cos(par[5]) > -1 / o.e - 1e-12) {
            c.discard();
        }
        c.label("beyond the asymptote");
    }
    c.show("par", par);
    bool thrown = false;
    try {
        kep3::par2ic(par, o.mu);
    } catch (const std::domain_error &) {
        thrown = true;
    }
    c.check(thrown, "par2ic accepted elements that describe no orbit");
    c.nontrivial();
}

namespace
{
struct EqRef {
    q p, f, g, h, k, L;
};
EqRef eq_of(const ref::Elem &el, int I)
{
    EqRef r{};
    r.p = el.p;
    q t = tanq(el.i / 2);
    if (I < 0) {
        t = 1 / t;
    }
    r.f = el.e * cosq(el.w + I * el.W);
    r.g = el.e * sinq(el.w + I * el.W);
    r.h = t * cosq(el.W);
    r.k = t * sinq(el.W);
    r.L = el.f + el.w + I * el.W;
    return r;
}
// An orbit whose equinoctial elements of type I are regular (away from i=pi for I=1, i=0 for I=-1).
Orbit eq_orbit(Case &c, bool retro)
{
    auto o = orbit(c, Conic::any, 1e-4, 0.);
    bool redo = false;
    double far = retro ? o.i : pi - o.i;
    if (far < 0.05) {
        o.i = retro ? 0.05 + o.i : pi - 0.05 - (pi - o.i);
        redo = true;
    }
    // Equatorial and circular orbits are regular here, unlike for classical elements.
    if (c.chance(0.1)) {
        o.i = retro ? pi : 0.;
        redo = true;
        c.label("equatorial");
    }
    if (!o.hyper && c.chance(0.1)) {
        o.e = 0.;
        redo = true;
        c.label("circular");
    }
    if (redo) {
        o.rv = ref::dn(ref::from_elements(o.p, o.e, o.i, o.W, o.w, o.f, o.mu));
    }
    return o;
}
// Equinoctial elements of the exact state in quad precision, regular also for i=0 and e=0.
EqRef eq_of_state(const ref::qstate &x, q mu, int I, q &e)
{
    auto h = ref::cross(x[0], x[1]);
    q hn = ref::norm(h), rn = ref::norm(x[0]);
    ref::qv3 w = ref::scale(h, 1 / hn);
    EqRef r{};
    r.p = hn * hn / mu;
    q den = 1 + I * w[2];
    r.k = w[0] / den;
    r.h = -w[1] / den;
    // Rotate by the node: fv = R(W) R(i) R(-I W) e1, without reference to the formula in the code: the equinoctial frame
    // is the equatorial one turned about the node line by i (I=1), so fv = e1 - (e1.w-ish) terms. For I=1 the rotation
    // taking e3 to w along the shortest arc; for I=-1 the one taking -e3 to w, applied to (e1, -e2).
    ref::qv3 a{0, 0, static_cast<q>(I)};
    auto turn = [&](const ref::qv3 &v) {
        // shortest-arc rotation a -> w (Rodrigues)
        auto ax = ref::cross(a, w);
        q cth = ref::dot(a, w);
        q kk = 1 / (1 + cth);
        auto axv = ref::cross(ax, v);
        q d = ref::dot(ax, v) * kk;
        return ref::add(ref::add(ref::scale(v, cth), axv), ref::scale(ax, d));
    };
    auto fv = turn({1, 0, 0});
    auto gv = turn({0, static_cast<q>(I), 0});
    auto ev = ref::sub(ref::scale(ref::cross(x[1], h), 1 / mu), ref::scale(x[0], 1 / rn));
    r.f = ref::dot(ev, fv);
    r.g = ref::dot(ev, gv);
    r.L = atan2q(ref::dot(x[0], gv), ref::dot(x[0], fv));
    e = ref::norm(ev);
    return r;
}
void show_eq(Case &c, const char *n, const d6 &e)
{
    c.show(n, e);
}
} // namespace

PROP("K04", "equinoctial_of_a_state", 200000, 5000000, "always: regular for the element type used")
{
    bool retro = c.chance(0.4);
    int I = retro ? -1 : 1;
    auto o = eq_orbit(c, retro);
    gen::show(c, o);
    c.show("retrograde", retro);
    q e = 0;
    auto r = eq_of_state(ref::up(o.rv), o.mu, I, e);
    if (fabsq(e - 1) < 1e-7q) {
        c.discard();
    }
    auto eq = kep3::ic2eq(o.rv, o.mu, retro);
    double R = ref::dnorm(o.rv[0]), V = ref::dnorm(o.rv[1]);
    double h = dn(sqrtq(r.p * o.mu));
    double kap = R * V / h, C = 24 * eps;
    double de = C * kap * (1 + V * V * R / o.mu), ed = dn(e);
    double om = std::abs(1 - ed * ed), tan2 = dn(r.h * r.h + r.k * r.k);
    double dw = C * kap * (1 + tan2);
    c.close("p", eq[0], dn(r.p), dn(r.p) * (C * kap + (de * (1 + ed) + C * (1 + V * V * R / o.mu)) / om * 2 + C * std::abs(o.a()) / R));
    c.close("f", eq[1], dn(r.f), de + ed * dw);
    c.close("g", eq[2], dn(r.g), de + ed * dw);
    c.close("h", eq[3], dn(r.h), dw * (1 + std::sqrt(tan2)));
    c.close("k", eq[4], dn(r.k), dw * (1 + std::sqrt(tan2)));
    c.ratio("L", angdiff(eq[5], r.L), dw * 4);
    c.check(eq[5] >= -pi - 1e-15 && eq[5] <= 2 * pi + 1e-15, "the true longitude is outside its range");
    auto back = kep3::eq2ic(eq, o.mu, retro);
    double den = dn(1 + r.f * cosq(r.L) + r.g * sinq(r.L));
    double amp = dw * 8 + (de + (de * (1 + ed) + C * (1 + V * V * R / o.mu)) / om * 2 + C * std::abs(o.a()) / R) * (1 + (1 + ed) / den);
    c.ratio("position round trip", ref::dnorm(ref::dsub(back[0], o.rv[0])), 4 * R * amp);
    c.ratio("velocity round trip", ref::dnorm(ref::dsub(back[1], o.rv[1])), 4 * (V + o.mu / h * (1 + ed)) * amp);
    c.label(retro ? "retrograde type" : "prograde type");
    c.label(o.units);
    c.nontrivial();
}

PROP("K04", "state_of_equinoctial", 200000, 5000000, "e>0")
{
    bool retro = c.chance(0.4);
    int I = retro ? -1 : 1;
    auto o = eq_orbit(c, retro);
    double th = retro ? 1 / std::tan(o.i / 2) : std::tan(o.i / 2);
    if (o.i == pi) {
        th = 0.;
    }
    d6 eq{o.p, o.e * std::cos(o.w + I * o.W), o.e * std::sin(o.w + I * o.W), th * std::cos(o.W), th * std::sin(o.W),
          o.f + o.w + I * o.W};
    eq[5] += 2 * pi * static_cast<double>(c.integer(0, 4) - 2) * (c.chance(0.2) ? 1. : 0.);
    show_eq(c, "eq", eq);
    c.show("mu", o.mu);
    c.show("retrograde", retro);
    // Exact classical elements of these (double) numbers.
    q e = sqrtq(q(eq[1]) * eq[1] + q(eq[2]) * eq[2]);
    q t = sqrtq(q(eq[3]) * eq[3] + q(eq[4]) * eq[4]);
    q W = t > 0 ? atan2q(eq[4], eq[3]) : 0;
    q inc = 2 * atanq(t);
    if (retro) {
        inc = ref::qpi - inc;
    }
    q z = e > 0 ? atan2q(eq[2], eq[1]) : 0;
    q w = z - I * W;
    q f = q(eq[5]) - z;
    auto r = ref::from_elements(eq[0], e, inc, W, w, f, o.mu);
    double den = dn(1 + e * cosq(f)), ed = dn(e);
    if (den < 1e-3) {
        c.discard();
    }
    auto s = kep3::eq2ic(eq, o.mu, retro);
    double rel = 24 * eps * (1 + (1 + ed) * (1 + std::abs(eq[5])) / den);
    c.ratio("position", ref::dist(s[0], r[0]), dn(ref::norm(r[0])) * rel);
    c.ratio("velocity", ref::dist(s[1], r[1]), dn(sqrtq(o.mu / q(eq[0]))) * (1 + ed) * 24 * eps * (1 + std::abs(eq[5])));
    c.label(retro ? "retrograde type" : "prograde type");
    c.label(o.units);
    c.nontrivial(o.e > 0);
}

namespace
{
// Agreement between two states relative to the size of the conic's motion at that point.
} // namespace

PROP("K05", "classical_to_equinoctial", 200000, 5000000, "e>0 and the orbit is inclined")
{
    bool retro = c.chance(0.4);
    int I = retro ? -1 : 1;
    auto o = orbit(c, Conic::any, c.chance(0.2) ? 1e-9 : 1e-5, 0.);
    double far = retro ? o.i : pi - o.i;
    if (far < 0.02) {
        // Away from the singular orbit, sometimes by very little.
        double away = c.chance(0.5) ? 0.02 : c.logreal(1e-7, 0.02);
        o.i = retro ? away : pi - away;
    }
    d6 par{o.p / (1 - o.e * o.e), o.e, o.i, o.W, o.w, o.f};
    c.show("par", par);
    c.show("retrograde", retro);
    auto eq = kep3::par2eq(par, retro);
    q t = retro ? 1 / tanq(q(o.i) / 2) : tanq(q(o.i) / 2);
    double td = dn(t), C = 16 * eps;
    double ang = 1 + std::abs(o.w) + std::abs(o.W);
    double ti = C * td * (1 + std::abs(o.i) * dn(1 + t * t) / td);
    c.close("p", eq[0], dn(q(par[0]) * (1 - q(par[1]) * par[1])), C * std::abs(par[0]) * (1 + o.e * o.e));
    c.close("f", eq[1], dn(o.e * cosq(q(o.w) + I * q(o.W))), C * o.e * ang);
    c.close("g", eq[2], dn(o.e * sinq(q(o.w) + I * q(o.W))), C * o.e * ang);
    c.close("h", eq[3], dn(t * cosq(o.W)), ti + C * td * ang);
    c.close("k", eq[4], dn(t * sinq(o.W)), ti + C * td * ang);
    c.ratio("L", angdiff(eq[5], q(o.f) + o.w + I * q(o.W)), C * (ang + std::abs(o.f)));
    // ... and back.
    if (o.e > 1e-8) {
        auto p2 = kep3::eq2par(eq, retro);
        double dz = C * ang + 4 * eps, dW = C * ang;
        c.close("e back", p2[1], par[1], C * o.e * ang);
        c.close("a back", p2[0], par[0], std::abs(par[0]) * C * (2 + (1 + o.e * o.e) / std::abs(1 - o.e * o.e)) * 4);
        c.close("i back", p2[2], par[2], C * (4 + (ti + C * td) / (1 + td * td)));
        c.ratio("W back", angdiff(p2[3], par[3]), dW * 2);
        c.ratio("w back", angdiff(p2[4], par[4]), 4 * dz);
        c.ratio("f back", angdiff(p2[5], par[5]), 4 * dz + C * std::abs(o.f));
        for (int k : {3, 4}) {
            c.check(p2[static_cast<std::size_t>(k)] >= 0 && p2[static_cast<std::size_t>(k)] <= 2 * pi + 1e-15, "an angle of eq2par is outside [0, 2 pi]");
        }
        c.check(p2[2] >= 0 && p2[2] <= pi + 1e-15, "the inclination of eq2par is outside [0, pi]");
        c.check((p2[0] > 0) == (p2[1] < 1), "eq2par broke the sign convention of the semi-major axis");
    }
    c.label(retro ? "retrograde type" : "prograde type");
    c.label(o.hyper ? "hyperbola" : "ellipse");
    c.nontrivial(o.e > 0);
}

PROP("K05", "equinoctial_to_classical", 200000, 5000000, "e>0 and the orbit is inclined")
{
    bool retro = c.chance(0.4);
    int I = retro ? -1 : 1;
    double e = c.chance(0.3) ? 1. + c.logreal(1e-3, 5.) : c.chance(0.2) ? c.logreal(1e-6, 1e-2) : c.real(1e-3, 0.999);
    if (c.chance(0.2)) {
        // Almost parabolic, almost circular, very open.
        auto k = c.integer(0, 3);
        e = k == 0 ? 1. - c.logreal(1e-9, 1e-3) : k == 1 ? 1. + c.logreal(1e-9, 1e-3) : k == 2 ? c.logreal(1e-12, 1e-6) : c.logreal(5., 1e4);
    }
    double z = angle(c), W = angle(c), t = c.chance(0.1) ? c.logreal(1e-9, 1e8) : c.logreal(1e-4, 20.);
    double p = c.logreal(1e-2, 1e12);
    d6 eq{p, e * std::cos(z), e * std::sin(z), t * std::cos(W), t * std::sin(W), c.real(-20., 20.)};
    show_eq(c, "eq", eq);
    c.show("retrograde", retro);
    auto par = kep3::eq2par(eq, retro);
    q er = sqrtq(q(eq[1]) * eq[1] + q(eq[2]) * eq[2]), tr = sqrtq(q(eq[3]) * eq[3] + q(eq[4]) * eq[4]);
    q zr = atan2q(eq[2], eq[1]), Wr = atan2q(eq[4], eq[3]);
    q ir = retro ? ref::qpi - 2 * atanq(tr) : 2 * atanq(tr);
    double C = 16 * eps;
    c.close("e", par[1], dn(er), C * e);
    c.close("a", par[0], dn(q(p) / (1 - er * er)), std::abs(par[0]) * C * (1 + (1 + e * e) / std::abs(1 - e * e)));
    c.close("i", par[2], dn(ir), C * 4);
    c.ratio("W", angdiff(par[3], Wr), C * 4);
    c.ratio("w", angdiff(par[4], zr - I * Wr), C * 12);
    c.ratio("f", angdiff(par[5], q(eq[5]) - zr), C * (12 + 20));
    for (int k : {3, 4}) {
        c.check(par[static_cast<std::size_t>(k)] >= 0 && par[static_cast<std::size_t>(k)] <= 2 * pi + 1e-15, "an angle of eq2par is outside [0, 2 pi]");
    }
    c.check(par[2] >= 0 && par[2] <= pi + 1e-15, "the inclination of eq2par is outside [0, pi]");
    c.check((par[0] > 0) == (par[1] < 1), "eq2par broke the sign convention of the semi-major axis");
    auto eq2 = kep3::par2eq(par, retro);
    c.close("p back", eq2[0], eq[0], std::abs(eq[0]) * C * (2 + (1 + e * e) / std::abs(1 - e * e) * 4));
    c.close("f back", eq2[1], eq[1], C * e * 30);
    c.close("g back", eq2[2], eq[2], C * e * 30);
    c.close("h back", eq2[3], eq[3], C * t * 30 + C * 8 * (1 + t * t));
    c.close("k back", eq2[4], eq[4], C * t * 30 + C * 8 * (1 + t * t));
    c.ratio("L back", angdiff(eq2[5], eq[5]), C * 60);
    c.label(retro ? "retrograde type" : "prograde type");
    c.nontrivial();
}

PROP("K05", "three_way_agreement", 100000, 3000000, "always: both element sets regular")
{
    // ic -> par -> eq -> ic and ic -> eq -> par -> ic, against the original state.
    bool retro = c.chance(0.4);
    auto o = orbit(c, Conic::any, 1e-2, 1e-3);
    double far = std::min(o.i, pi - o.i);
    if (far < 0.05 || o.e < 1e-3) {
        c.discard();
    }
    gen::show(c, o);
    c.show("retrograde", retro);
    auto el = ref::elements(ref::up(o.rv), q(o.mu));
    auto b = bounds(el, o.rv, o.mu);
    double e = dn(el.e), den = dn(1 + el.e * cosq(el.f));
    if (den < 0.02) {
        c.discard();
    }
    double amp = (b.i + b.W + b.w + b.f + b.a / std::abs(dn(el.a)) + b.e / std::abs(1 - e) + 1e-14 / std::abs(1 - e)) * (1 + (1 + e) / den) * 8;
    double t2 = std::pow(std::tan(o.i / 2), retro ? -2 : 2);
    amp *= 1 + t2 * eps / eps * 0 + std::sqrt(t2) * 0;
    double R = ref::dnorm(o.rv[0]), V = ref::dnorm(o.rv[1]) + o.mu / dn(ref::norm(el.h)) * (1 + e);
    auto par = kep3::ic2par(o.rv, o.mu);
    auto s1 = kep3::eq2ic(kep3::par2eq(par, retro), o.mu, retro);
    c.ratio("ic-par-eq-ic position", ref::dnorm(ref::dsub(s1[0], o.rv[0])), R * amp + R * 1e-13 * (1 + t2));
    c.ratio("ic-par-eq-ic velocity", ref::dnorm(ref::dsub(s1[1], o.rv[1])), V * amp + V * 1e-13 * (1 + t2));
    auto par2 = kep3::eq2par(kep3::ic2eq(o.rv, o.mu, retro), retro);
    if (!(e > 1 && std::cos(par2[5]) <= -1 / par2[1])) {
        auto s2 = kep3::par2ic(par2, o.mu);
        double ill = 1e-13 * (1 + t2) * (1 + 1 / e + std::abs(o.a()) / R + 1 / std::abs(1 - e)) * (1 + (1 + e) / den);
        c.ratio("ic-eq-par-ic position", ref::dnorm(ref::dsub(s2[0], o.rv[0])), R * (amp + ill));
        c.ratio("ic-eq-par-ic velocity", ref::dnorm(ref::dsub(s2[1], o.rv[1])), V * (amp + ill));
    }
    c.label(retro ? "retrograde type" : "prograde type");
    c.label(o.hyper ? "hyperbola" : "ellipse");
    c.nontrivial();
}
