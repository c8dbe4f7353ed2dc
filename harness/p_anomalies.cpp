// K01, K02: anomaly conversions.
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/kepler_equations.hpp>
#include <kep3/core_astro/special_functions.hpp>

#include "gen.hpp"

using namespace gen;
using ref::dn;
using ref::q;

namespace
{
q wrap_pm(q x)
{
    return x - roundq(x / (2 * ref::qpi)) * 2 * ref::qpi;
}
q solve_E(q M, q e) // M in [-pi,pi]
{
    q lo = -ref::qpi - 1, hi = ref::qpi + 1, E = M;
    for (int i = 0; i < 300; ++i) {
        q f = E - e * sinq(E) - M, d = 1 - e * cosq(E);
        if (f > 0) {
            hi = E;
        } else {
            lo = E;
        }
        q n = E - f / d;
        if (!(n > lo && n < hi)) {
            n = (lo + hi) / 2;
        }
        if (fabsq(n - E) <= 1e-33q * fabsq(E)) {
            return n;
        }
        E = n;
    }
    return E;
}
q solve_H(q N, q e)
{
    q lo = -200, hi = 200, H = asinhq(N / e);
    for (int i = 0; i < 400; ++i) {
        q f = e * sinhq(H) - H - N, d = e * coshq(H) - 1;
        if (f > 0) {
            hi = H;
        } else {
            lo = H;
        }
        q n = H - f / d;
        if (!(n > lo && n < hi)) {
            n = (lo + hi) / 2;
        }
        if (fabsq(n - H) <= 1e-33q * fabsq(H)) {
            return n;
        }
        H = n;
    }
    return H;
}

double ecc_ell(Case &c)
{
    switch (c.integer(0, 6)) {
        case 0:
            return c.pick({0., 0.5, 0.9, 0.99});
        case 1:
            return c.logreal(1e-12, 1e-2);
        case 2:
            return 1. - c.logreal(1e-9, 1e-1);
        default:
            return c.real(0., 0.999);
    }
}
double ecc_hyp(Case &c)
{
    switch (c.integer(0, 5)) {
        case 0:
            return 1. + c.logreal(1e-9, 1e-1);
        case 1:
            return c.logreal(2., 1e3);
        default:
            return 1. + c.real(1e-3, 9.);
    }
}
// Any real anomaly: many revolutions, tiny, at the quadrant boundaries.
double any_angle(Case &c)
{
    switch (c.integer(0, 7)) {
        case 0:
            return static_cast<double>(c.integer(-8, 8)) * pi / 2;
        case 1:
            return c.sign() * c.logreal(1e-15, 1e-2);
        case 2:
            return c.sign() * c.logreal(1., 1e9);
        case 3:
            return static_cast<double>(c.integer(-8, 8)) * pi / 2 + c.sign() * c.logreal(1e-14, 1e-2);
        default:
            return c.real(-2 * pi, 2 * pi);
    }
}
} // namespace

PROP("K01", "kepler_equation", 400000, 12000000, "e>0 and |M|>0: an equation with a non trivial root")
{
    double e = ecc_ell(c), M = any_angle(c);
    c.show("e", e);
    c.show("M", M);
    q Mw = wrap_pm(M);
    q Er = solve_E(Mw, e);
    double E = kep3::m2e(M, e);
    double der = dn(1 - q(e) * cosq(Er));
    double tol = 8 * eps * (std::abs(dn(Mw)) + std::abs(dn(Er))) / der + 4 * eps;
    // At the cut the two representatives are equally good.
    c.ratio("eccentric anomaly", ref::angdiff(E, Er), tol, [&]() { return "m2e does not solve Kepler's equation"; });
    c.check(std::abs(E) <= pi + 1e-14, "m2e is outside [-pi, pi]");
    // Round trip through the forward equation.
    c.ratio("mean anomaly round trip", ref::angdiff(kep3::e2m(E, e), Mw), 8 * eps * (std::abs(dn(Mw)) + std::abs(E)) + 4 * eps,
            [&]() { return "e2m(m2e(M)) is not M modulo 2 pi"; });
    // m2f is the true anomaly of the same point.
    q fr = 2 * atan2q(sqrtq(1 + q(e)) * sinq(Er / 2), sqrtq(1 - q(e)) * cosq(Er / 2));
    double f = kep3::m2f(M, e);
    double dfdE = dn(sqrtq(1 - q(e) * e)) / der;
    c.ratio("true anomaly", ref::angdiff(f, fr), 8 * eps * std::abs(dn(fr)) + dfdE * (tol + 8 * eps * pi) + 4 * eps * std::abs(f) / (1 - e),
            [&]() { return "m2f(M) is not the true anomaly of the same point"; });
    c.check(std::abs(f) <= pi + 1e-14, "m2f is outside [-pi, pi]");
    c.label(e < 0.1 ? "e<0.1" : e > 0.9 ? "e>0.9" : "0.1<=e<=0.9");
    c.label(std::abs(M) > 2 * pi ? "several revolutions" : "one revolution");
    c.nontrivial(e > 0 && M != 0);
}

PROP("K01", "true_eccentric_mean", 400000, 12000000, "e>0 and the point is not an apside")
{
    double e = ecc_ell(c), f = any_angle(c);
    c.show("e", e);
    c.show("f", f);
    q fw = wrap_pm(f);
    q Er = 2 * atan2q(sqrtq(1 - q(e)) * sinq(fw / 2), sqrtq(1 + q(e)) * cosq(fw / 2));
    double der = dn(1 - q(e) * cosq(Er));
    double dEdf = der / dn(sqrtq(1 - q(e) * e));
    // f/2 is reduced by the tangent, so that an input error is relative to f.
    double tolE = 8 * eps * (std::abs(dn(Er)) + dEdf * std::abs(f)) + 1e-300;
    if (e > 0.999999) {
        tolE += 4 * eps * std::abs(dn(Er)) / (1 - e);
    }
    double E = kep3::f2e(f, e);
    c.ratio("eccentric anomaly from true", ref::angdiff(E, Er), tolE, [&]() { return "f2e is not the eccentric anomaly"; });
    c.check(std::abs(E) <= pi + 1e-14, "f2e is outside [-pi, pi]");
    double M = kep3::f2m(f, e);
    q Mr = Er - q(e) * sinq(Er);
    c.ratio("mean anomaly from true", ref::angdiff(M, Mr), 8 * eps * std::abs(dn(Er)) + der * tolE * 2,
            [&]() { return "f2m is not the mean anomaly"; });
    double fb = kep3::e2f(E, e);
    c.ratio("true anomaly round trip", ref::angdiff(fb, fw), 16 * eps * std::abs(dn(fw)) + tolE / dEdf * 2 + 8 * eps * std::abs(dn(Er)) / dEdf,
            [&]() { return "e2f(f2e(f)) is not f modulo 2 pi"; });
    // e2m is defined for any number of revolutions and adds them.
    double Eany = f;
    c.ratio("mean anomaly from eccentric", std::abs(kep3::e2m(Eany, e) - dn(q(Eany) - q(e) * sinq(Eany))),
            4 * eps * (std::abs(Eany) + e), [&]() { return "e2m is not E - e sin E"; });
    q f2 = 2 * atan2q(sqrtq(1 + q(e)) * sinq(q(Eany) / 2), sqrtq(1 - q(e)) * cosq(q(Eany) / 2));
    q der2 = 1 - q(e) * cosq(q(Eany));
    double dfdE = dn(sqrtq(1 - q(e) * e) / der2);
    c.ratio("true anomaly from eccentric", ref::angdiff(kep3::e2f(Eany, e), f2),
            8 * eps * (std::abs(dn(wrap_pm(f2))) + dfdE * std::abs(Eany)) + (e > 0.999999 ? 4 * eps * pi / (1 - e) : 0.) + 1e-300,
            [&]() { return "e2f is not the true anomaly"; });
    c.label(e < 0.1 ? "e<0.1" : e > 0.9 ? "e>0.9" : "0.1<=e<=0.9");
    c.nontrivial(e > 0 && std::abs(std::sin(f)) > 1e-12);
}

PROP("K01", "domain", 20000, 200000, "an eccentricity outside the function's conic")
{
    double x = any_angle(c);
    double eh = c.chance(0.2) ? 1. : ecc_hyp(c), ee = c.chance(0.2) ? 1. : ecc_ell(c);
    c.show("hyperbolic e", eh);
    c.show("elliptic e", ee);
    c.show("anomaly", x);
    for (double v : {kep3::m2e(x, eh), kep3::e2m(x, eh), kep3::m2f(x, eh), kep3::f2m(x, eh), kep3::e2f(x, eh),
                     kep3::f2e(x, eh)}) {
        c.check(std::isnan(v), "an elliptic conversion returned a number for e>=1");
    }
    c.nontrivial();
}

PROP("K02", "domain", 20000, 200000, "an eccentricity outside the function's conic")
{
    double x = any_angle(c);
    double ee = c.chance(0.2) ? 1. : ecc_ell(c);
    c.show("elliptic e", ee);
    c.show("anomaly", x);
    for (double v : {kep3::n2h(x, ee), kep3::h2n(x, ee), kep3::n2f(x, ee), kep3::f2n(x, ee), kep3::h2f(x, ee),
                     kep3::f2h(x, ee), kep3::zeta2f(x, ee), kep3::f2zeta(x, ee)}) {
        c.check(std::isnan(v), "a hyperbolic conversion returned a number for e<=1");
    }
    c.nontrivial();
}

PROP("K02", "kepler_equation", 300000, 8000000, "N != 0")
{
    double e = ecc_hyp(c);
    double N = 0;
    switch (c.integer(0, 4)) {
        case 0:
            N = c.sign() * c.logreal(1e-12, 1e-2);
            break;
        case 1:
            N = c.sign() * c.logreal(1., 1e8);
            break;
        case 2:
            N = static_cast<double>(c.integer(-3, 3));
            break;
        default:
            N = c.real(-20., 20.);
    }
    c.show("e", e);
    c.show("N", N);
    q Hr = solve_H(N, e);
    double H = kep3::n2h(N, e);
    double der = dn(q(e) * coshq(Hr) - 1), es = std::abs(dn(q(e) * sinhq(Hr)));
    double tol = 8 * eps * (es + std::abs(N) + std::abs(dn(Hr))) / der + 4 * eps * std::abs(dn(Hr)) + 4 * eps;
    c.close("hyperbolic anomaly", H, dn(Hr), tol);
    c.close("hyperbolic mean anomaly round trip", kep3::h2n(H, e), N, 16 * eps * (es + std::abs(N) + std::abs(H)) + 4 * eps);
    q fr = 2 * atan2q(sqrtq(q(e) + 1) * sinhq(Hr / 2), sqrtq(q(e) - 1) * coshq(Hr / 2));
    double dfdH = dn(sqrtq(q(e) * e - 1)) / der;
    double f = kep3::n2f(N, e);
    c.close("true anomaly", f, dn(fr), 8 * eps * std::abs(dn(fr)) + 2 * dfdH * tol + 8 * eps * std::abs(f) * (e < 1.000001 ? 1. / (e - 1) : 0.) + 1e-300);
    c.check(std::abs(f) <= pi, "n2f is outside [-pi, pi]");
    c.check(std::cos(f) * e > -1 - 1e-9, "n2f is beyond the asymptote");
    c.label(e < 1.1 ? "e<1.1" : e > 10 ? "e>10" : "1.1<=e<=10");
    c.label(std::abs(N) > 30 ? "|N|>30" : "|N|<=30");
    c.nontrivial(N != 0);
}

PROP("K02", "true_hyperbolic_gudermannian", 300000, 8000000, "the point is not the pericentre")
{
    double e = ecc_hyp(c);
    // The anomaly is the generated quantity: H within what double resolves near the asymptote.
    double H = c.chance(0.2) ? c.sign() * c.logreal(1e-10, 1e-1) : c.real(-12., 12.);
    c.show("e", e);
    c.show("H", H);
    q fr = 2 * atan2q(sqrtq(q(e) + 1) * sinhq(q(H) / 2), sqrtq(q(e) - 1) * coshq(q(H) / 2));
    q zr = 2 * atanq(tanhq(q(H) / 2)); // Gudermannian function
    double ke = e < 1.000001 ? 4 * eps / (e - 1) : 0.;
    double f = kep3::h2f(H, e);
    c.close("true from hyperbolic", f, dn(fr), 8 * eps * std::abs(dn(fr)) + ke * std::abs(dn(fr)));
    // Back from the exact true anomaly, rounded: the condition is dH/df.
    double fd = dn(fr);
    q der = q(e) * coshq(q(H)) - 1;
    double dHdf = dn(der / sqrtq(q(e) * e - 1));
    double tolH = 8 * eps * (std::abs(H) + dHdf * std::abs(fd)) + 16 * eps * std::exp(std::abs(H)) + ke * dHdf;
    double H2 = kep3::f2h(fd, e);
    c.close("hyperbolic from true", H2, H, tolH);
    // f2n: relative to dN/dH
    q Nr = q(e) * sinhq(q(H)) - H;
    c.close("hyperbolic mean from true", kep3::f2n(fd, e), dn(Nr),
            2 * dn(der) * tolH + 8 * eps * (std::abs(dn(Nr)) + std::abs(H) + e * std::abs(dn(sinhq(q(H))))));
    c.close("hyperbolic mean from hyperbolic", kep3::h2n(H, e), dn(Nr), 8 * eps * (e * std::abs(dn(sinhq(q(H)))) + std::abs(H)));
    // Gudermannian
    double z = kep3::f2zeta(fd, e);
    double dzdf = dn(1 / coshq(q(H))) * dHdf;
    c.close("gudermannian from true", z, dn(zr), 16 * eps * (std::abs(dn(zr)) + dzdf * std::abs(fd)) + ke * dzdf);
    double zd = dn(zr);
    q f2 = 2 * atanq(sqrtq((q(e) + 1) / (q(e) - 1)) * tanq(q(zd) / 2));
    c.close("true from gudermannian", kep3::zeta2f(zd, e), dn(f2),
            16 * eps * (std::abs(dn(f2)) + std::abs(zd) / dzdf) + ke * 4);
    c.label(std::abs(H) > 5 ? "near the asymptote" : "inner arc");
    c.nontrivial(H != 0);
}
