// Reference model of a Sims-Flanagan leg in 113-bit arithmetic and generators of legs.
#pragma once
#include <vector>

#include "gen.hpp"
#include "prop.hpp"

namespace leg
{
using pbt::Case;
using gen::eps;
using gen::state;
using gen::v3;
using ref::q;
using ref::qstate;
using q7 = std::array<q, 7>;

struct Leg {
    state rvs{}, rvf{};
    double ms = 1, mf = 1, tof = 1, thrust = 1, isp = 1, mu = 1, cut = 0.5;
    std::vector<double> th;
    [[nodiscard]] std::size_t nseg() const
    {
        return th.size() / 3;
    }
    [[nodiscard]] std::size_t fwd() const
    {
        return static_cast<std::size_t>(static_cast<double>(nseg()) * cut);
    }
};
struct QLeg {
    qstate rvs{}, rvf{};
    q ms, mf, tof, thrust, isp, mu;
    std::vector<q> th;
    std::size_t fwd = 0;
};
inline QLeg up(const Leg &l)
{
    QLeg o;
    o.rvs = ref::up(l.rvs), o.rvf = ref::up(l.rvf);
    o.ms = l.ms, o.mf = l.mf, o.tof = l.tof, o.thrust = l.thrust, o.isp = l.isp, o.mu = l.mu;
    o.th.assign(l.th.begin(), l.th.end());
    o.fwd = l.fwd();
    return o;
}
inline const q g0 = q(9.80665);

struct End {
    qstate rv;
    q m;
    ErrScale e{0., 0.}; // accumulated rounding error
    double em = 0;
    bool wild = false; // the trajectory comes close to the centre, runs away or is almost radial or parabolic
};
// From one end to the cut: n impulses in the middle of n equal segments, mass by the rocket equation.
inline End half(const QLeg &l, bool forward, bool errors)
{
    std::size_t n = l.th.size() / 3, k = forward ? l.fwd : n - l.fwd;
    End o;
    o.rv = forward ? l.rvs : l.rvf;
    o.m = forward ? l.ms : l.mf;
    if (k == 0) {
        return o;
    }
    q dt = l.tof / q(static_cast<double>(n)), s = forward ? 1 : -1;
    double mu = ref::dn(l.mu);
    auto fly = [&](q t) {
        if (errors) {
            auto d = ref::dn(o.rv);
            double R = ref::dnorm(d[0]), V = ref::dnorm(d[1]), al = 2 / R - V * V / mu;
            double h = ref::dnorm(ref::dcross(d[0], d[1]));
            double p = h * h / mu, e = std::sqrt(std::max(0., 1 - p * al));
            auto z = ref::dn(ref::kepler(o.rv, t, l.mu));
            double R1 = ref::dnorm(z[0]);
            o.wild = o.wild || p / (1 + e) < 0.02 * R || std::abs(al) * std::min(R, R1) < 1e-3 || R1 > 50 * R || R1 < R / 50 || std::abs(1 - e) < 1e-3;
            if (o.wild) {
                return false;
            }
            o.e = err_scale(d, ref::dn(t), mu, o.e);
        }
        o.rv = ref::kepler(o.rv, t, l.mu);
        return true;
    };
    if (!fly(s * dt / 2)) {
        return o;
    }
    for (std::size_t j = 0; j < k; ++j) {
        std::size_t i = forward ? j : n - 1 - j;
        q dv2 = 0;
        double V = ref::dn(ref::norm(o.rv[1]));
        for (std::size_t x = 0; x < 3; ++x) {
            q dv = l.thrust * dt / o.m * l.th[3 * i + x];
            o.rv[1][x] += s * dv;
            dv2 += dv * dv;
        }
        q f = expq(-s * sqrtq(dv2) / (l.isp * g0));
        if (errors) {
            double dv = ref::dn(sqrtq(dv2)), m = ref::dn(o.m), b = dv / ref::dn(l.isp * g0);
            o.e.v += 4 * eps * (V + dv) + dv * o.em / m;
            o.em = ref::dn(f) * (o.em * (1 + b) + m * 4 * eps * (1 + b));
        }
        o.m *= f;
        if (errors && (f < 0.05q || o.m < 0.05q * (forward ? l.ms : l.mf))) {
            o.wild = true; // the mass runs out
            return o;
        }
        if (!fly(j + 1 == k ? s * dt / 2 : s * dt)) {
            return o;
        }
    }
    return o;
}
inline q7 mismatch(const QLeg &l)
{
    auto f = half(l, true, false), b = half(l, false, false);
    q7 r;
    for (std::size_t i = 0; i < 3; ++i) {
        r[i] = f.rv[0][i] - b.rv[0][i];
        r[i + 3] = f.rv[1][i] - b.rv[1][i];
    }
    r[6] = f.m - b.m;
    return r;
}

// A leg: departure from a conic, arrival close to the end of the ballistic arc or on another conic.
// Throttles that share components with those of the segment before, lie in a plane or along an axis, or repeat.
inline void relate(Case &c, std::vector<double> &th, bool zeros)
{
    if (!c.chance(0.3)) {
        return;
    }
    std::size_t n = th.size() / 3;
    bool any = false;
    for (std::size_t i = 0; i < n; ++i) {
        auto old = std::array<double, 3>{th[3 * i], th[3 * i + 1], th[3 * i + 2]};
        auto keep = c.integer(0, 7); // the components to take from the segment before
        auto drop = c.integer(0, 9); // one in three: a component vanishes
        for (std::size_t x = 0; x < 3; ++x) {
            if (i > 0 && (keep >> x) % 2 == 1) {
                th[3 * i + x] = c.chance(0.1) ? -th[3 * i - 3 + x] : th[3 * i - 3 + x];
            }
            if (static_cast<std::size_t>(drop) == x) {
                th[3 * i + x] = 0.;
            }
            if (std::abs(th[3 * i + x]) < 1e-12) {
                th[3 * i + x] = 0.;
            }
        }
        double size = std::hypot(th[3 * i], th[3 * i + 1], th[3 * i + 2]);
        if (size < 0.01 * std::hypot(old[0], old[1], old[2]) && !(zeros && size == 0.)) { // no almost vanishing throttles
            std::copy(old.begin(), old.end(), th.begin() + static_cast<std::ptrdiff_t>(3 * i));
        }
        any = any || keep != 0;
    }
    if (any) {
        c.label("related throttles");
    }
}
inline Leg make(Case &c, long max_seg = 8, bool zero_throttles = true)
{
    Leg l;
    auto o = gen::orbit(c, gen::Conic::any, 5e-2, 0., 3.);
    l.rvs = o.rv;
    l.mu = o.mu;
    double n = o.n();
    l.tof = (o.hyper ? c.real(0.1, 4.) : c.real(0.1, 8.)) / n;
    auto nseg = static_cast<std::size_t>(c.integer(1, max_seg));
    switch (c.integer(0, 5)) {
        case 0:
            l.cut = c.pick({0., 1.});
            break;
        case 1:
            l.cut = static_cast<double>(c.integer(0, static_cast<long>(nseg))) / static_cast<double>(nseg);
            break;
        case 2:
            l.cut = 0.5;
            break;
        default:
            l.cut = c.unit();
    }
    l.rvf = ref::dn(ref::kepler(o.rv, l.tof, o.mu));
    double R = ref::dnorm(l.rvf[0]), V = ref::dnorm(l.rvf[1]);
    double off = c.chance(0.3) ? 0.3 : c.logreal(1e-6, 1e-1);
    for (std::size_t i = 0; i < 3; ++i) {
        l.rvf[0][i] += R * off * c.real(-1., 1.);
        l.rvf[1][i] += V * off * c.real(-1., 1.);
    }
    l.ms = c.logreal(1e-1, 5e3);
    l.mf = l.ms * c.real(0.5, 1.);
    double dt = l.tof / static_cast<double>(nseg);
    double dv = V * c.logreal(1e-5, 0.2); // one impulse at full throttle
    l.thrust = dv * l.ms / dt;
    if (c.chance(0.03)) {
        l.thrust = 0.;
    }
    double veff = dv * static_cast<double>(nseg) * c.logreal(0.5, 100.);
    l.isp = veff / 9.80665;
    for (std::size_t i = 0; i < nseg; ++i) {
        auto d = gen::direction(c);
        double m = 1;
        switch (c.integer(0, 4)) {
            case 0:
                m = 1;
                break;
            case 1:
                m = zero_throttles ? 0. : 0.5;
                break;
            case 2:
                m = c.logreal(1e-6, 1.);
                break;
            default:
                m = c.real(0., 1.3);
        }
        if (!zero_throttles) {
            m = std::max(m, 1e-3);
        }
        for (std::size_t x = 0; x < 3; ++x) {
            l.th.push_back(m * d[x]);
        }
    }
    relate(c, l.th, zero_throttles);
    return l;
}
inline void show(Case &c, const Leg &l)
{
    c.show("rvs", l.rvs);
    c.show("ms", l.ms);
    c.show("throttles", l.th);
    c.show("rvf", l.rvf);
    c.show("mf", l.mf);
    c.show("tof", l.tof);
    c.show("max_thrust", l.thrust);
    c.show("isp", l.isp);
    c.show("mu", l.mu);
    c.show("cut", l.cut);
}
} // namespace leg
