// Generators shared by the properties: orbits of every conic type, scales, durations, special angles.
#pragma once
#include "known.hpp"
#include "pbt.hpp"
#include "ref.hpp"

namespace gen
{
using pbt::Case;
using ref::state;
using ref::v3;
constexpr double pi = 3.14159265358979323846;
constexpr double eps = 2.220446049250313e-16;

// An angle in [0, 2pi), quadrant boundaries and their neighbourhoods included.
inline double angle(Case &c)
{
    switch (c.integer(0, 9)) {
        case 0:
            return c.pick({0., pi / 2, pi, 3 * pi / 2});
        case 1: {
            double a = c.pick({0., pi / 2, pi, 3 * pi / 2}) + c.sign() * c.logreal(1e-12, 1e-2);
            return a < 0 ? a + 2 * pi : a;
        }
        default:
            return c.real(0., 2 * pi);
    }
}

// Physical scale: non dimensional, SI around the Sun and planets, km, odd ones.
struct Units {
    double L, mu;
    const char *name;
};
inline Units units(Case &c)
{
    switch (c.integer(0, 5)) {
        case 0:
        case 1:
            return {1., 1., "non-dimensional"};
        case 2:
            return {1.495978707e11, 1.32712440018e20, "SI, heliocentric"};
        case 3:
            return {7.0e6, 3.986004418e14, "SI, geocentric"};
        case 4:
            return {7.0e3, 398600.4418, "km, geocentric"};
        default:
            return {c.logreal(1e-3, 1e3), c.logreal(1e-3, 1e3), "random"};
    }
}

enum class Conic { ellipse, hyperbola, any };

struct Orbit {
    double p = 1, e = 0, i = 0, W = 0, w = 0, f = 0, mu = 1, L = 1;
    state rv{};
    bool hyper = false;
    const char *units = "";
    [[nodiscard]] double a() const
    {
        return p / (1 - e * e);
    }
    // Time scale of the orbit: |a|^1.5/sqrt(mu)
    [[nodiscard]] double n() const
    {
        return std::sqrt(mu / std::pow(std::abs(a()), 3));
    }
};

inline double inclination(Case &c)
{
    switch (c.integer(0, 7)) {
        case 0:
            return c.pick({pi / 2, pi / 4, 3 * pi / 4});
        case 1:
            return c.logreal(1e-6, 1e-1);
        case 2:
            return pi - c.logreal(1e-6, 1e-1);
        default:
            return c.real(1e-3, pi - 1e-3);
    }
}

// emin_gap: distance kept from the parabola (e=1).
inline Orbit orbit(Case &c, Conic kind = Conic::any, double gap = 1e-2, double emin = 0., double emax = 8.)
{
    Orbit o;
    auto u = units(c);
    o.mu = u.mu;
    o.L = u.L;
    o.units = u.name;
    bool hyp = kind == Conic::hyperbola || (kind == Conic::any && c.chance(0.4));
    o.hyper = hyp;
    if (hyp) {
        o.e = c.chance(0.3) ? 1. + c.logreal(gap, 1.) : c.real(1. + gap, emax);
    } else {
        switch (c.integer(0, 5)) {
            case 0:
                o.e = emin > 0. ? c.logreal(emin, 1e-1) : c.logreal(1e-8, 1e-1);
                break;
            case 1:
                o.e = 1. - c.logreal(gap, 0.3);
                break;
            default:
                o.e = c.real(emin, 1. - gap);
        }
    }
    double rp = o.L * c.logreal(0.2, 5.);
    o.p = rp * (1 + o.e);
    o.i = inclination(c);
    o.W = angle(c);
    o.w = angle(c);
    if (hyp) {
        double fmax = std::acos(-1. / o.e);
        double u2 = c.integer(0, 9) == 0 ? 0. : c.real(-1., 1.);
        o.f = u2 * (fmax - 0.05 * std::min(1., fmax));
        if (c.chance(0.1)) {
            o.f = c.sign() * (fmax - c.logreal(1e-3, 5e-2));
        }
    } else {
        o.f = angle(c);
    }
    o.rv = ref::dn(ref::from_elements(o.p, o.e, o.i, o.W, o.w, o.f, o.mu));
    c.label(hyp ? "hyperbola" : "ellipse");
    return o;
}

inline void show(Case &c, const Orbit &o)
{
    c.show("e", o.e);
    c.show("rv", o.rv);
    c.show("mu", o.mu);
}

// A duration for the orbit, positive or negative; for ellipses up to many revolutions.
inline double duration(Case &c, const Orbit &o, double max_rev = 20., double max_N = 30.)
{
    double n = o.n();
    double x = 0;
    switch (c.integer(0, 7)) {
        case 0:
            x = c.logreal(1e-6, 1e-2);
            break;
        case 1:
            x = o.hyper ? c.logreal(0.1, max_N) : 2 * pi * c.real(0., max_rev);
            break;
        case 2:
            x = o.hyper ? c.real(0., 3.) : pi * static_cast<double>(c.integer(1, 4)) / 2;
            break;
        default:
            x = o.hyper ? c.real(0., 6.) : c.real(0., 2 * pi);
    }
    return c.sign() * x / n;
}

// Any vector of the given magnitude.
inline v3 direction(Case &c)
{
    double z = c.real(-1., 1.), a = angle(c), s = std::sqrt(std::max(0., 1 - z * z));
    return {s * std::cos(a), s * std::sin(a), z};
}
} // namespace gen
