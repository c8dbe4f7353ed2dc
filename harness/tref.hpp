// Reference flights in 113-bit arithmetic: constant inertial thrust in a central field, circular restricted three bodies.
// Taylor series of the closed equations, order 32, remainder below 1e-30 of the state.
#pragma once
#include <functional>
#include <vector>

#include "gen.hpp"

namespace tref
{
using ref::q;
constexpr int P = 32;
using jet = std::array<q, P + 1>;
template <std::size_t N>
using vec = std::array<q, N>;

inline q conv(const jet &a, const jet &b, int k)
{
    q s = 0;
    for (int i = 0; i <= k; ++i) {
        s += a[static_cast<std::size_t>(i)] * b[static_cast<std::size_t>(k - i)];
    }
    return s;
}
// Coefficient k of a^p given those of a up to k and of the result r up to k-1.
inline q powk(const jet &a, const jet &r, q p, int k)
{
    if (k == 0) {
        return powq(a[0], p);
    }
    q s = 0;
    for (int i = 0; i < k; ++i) {
        s += (q(k - i) * p - q(i)) * a[static_cast<std::size_t>(k - i)] * r[static_cast<std::size_t>(i)];
    }
    return s / (q(k) * a[0]);
}
inline q step_size(const std::array<jet, 3> &r, q scale)
{
    q h = 0;
    for (int k = P - 1; k <= P; ++k) {
        q m = 0;
        for (const auto &x : r) {
            m += fabsq(x[static_cast<std::size_t>(k)]);
        }
        if (m > 0) {
            q t = powq(1e-31q * scale / m, 1 / q(k));
            h = h == 0 ? t : fminq(h, t);
        }
    }
    return h == 0 ? 1e300q : h;
}
inline q horner(const jet &c, q h)
{
    q v = c[P];
    for (int k = P - 1; k >= 0; --k) {
        v = c[static_cast<std::size_t>(k)] + v * h;
    }
    return v;
}

// What was met on the way.
struct Track {
    q rmin = 1e300q, rmax = 0, vmax = 0;
    int steps = 0;
    bool bad = false; // too many steps, or no mass left
    void seen(const vec<7> &x)
    {
        q r = sqrtq(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), v = sqrtq(x[3] * x[3] + x[4] * x[4] + x[5] * x[5]);
        rmin = fminq(rmin, r), rmax = fmaxq(rmax, r), vmax = fmaxq(vmax, v);
    }
};
struct Args {
    q mu, veff;
    vec<3> u; // thrust
};
// x: position, velocity, mass. The mass falls by |u|/veff per unit of time.
inline vec<7> stark(vec<7> x, const Args &a, q t, Track *tr = nullptr)
{
    q un = sqrtq(a.u[0] * a.u[0] + a.u[1] * a.u[1] + a.u[2] * a.u[2]), c = un == 0 ? q(0) : un / a.veff;
    q left = t;
    Track local;
    Track &T = tr ? *tr : local;
    T.seen(x);
    while (left != 0) {
        std::array<jet, 3> r, v;
        jet r2, s, w;
        for (std::size_t i = 0; i < 3; ++i) {
            r[i][0] = x[i];
            v[i][0] = x[i + 3];
        }
        w[0] = 1 / x[6];
        for (int k = 0; k <= P; ++k) {
            auto K = static_cast<std::size_t>(k);
            if (k > 0) {
                w[K] = w[K - 1] * c / x[6];
            }
            r2[K] = conv(r[0], r[0], k) + conv(r[1], r[1], k) + conv(r[2], r[2], k);
            s[K] = powk(r2, s, -1.5q, k);
            if (k < P) {
                for (std::size_t i = 0; i < 3; ++i) {
                    r[i][K + 1] = v[i][K] / q(k + 1);
                    v[i][K + 1] = (-a.mu * conv(s, r[i], k) + a.u[i] * w[K]) / q(k + 1);
                }
            }
        }
        q R = sqrtq(r2[0]), h = step_size(r, R);
        if (c != 0) {
            h = fminq(h, 0.05q * x[6] / c); // the series of 1/m
        }
        if (++T.steps > 4000 || !(h > 0) || isnanq(h)) {
            T.bad = true;
            return x;
        }
        h = h >= fabsq(left) ? left : copysignq(h, left);
        for (std::size_t i = 0; i < 3; ++i) {
            x[i] = horner(r[i], h);
            x[i + 3] = horner(v[i], h);
        }
        x[6] -= c * h;
        left = h == left ? q(0) : left - h;
        T.seen(x);
        if (!(x[6] > 0)) {
            T.bad = true;
            return x;
        }
    }
    return x;
}
// Rotating frame, primaries at (-mu, 0, 0) and (1 - mu, 0, 0).
inline vec<6> cr3bp(vec<6> x, q mu, q t, Track *tr = nullptr, q *r2min = nullptr)
{
    q left = t;
    int steps = 0;
    while (left != 0) {
        std::array<jet, 3> r, v;
        jet a2, b2, sa, sb, xa, xb;
        for (std::size_t i = 0; i < 3; ++i) {
            r[i][0] = x[i];
            v[i][0] = x[i + 3];
        }
        for (int k = 0; k <= P; ++k) {
            auto K = static_cast<std::size_t>(k);
            xa[K] = r[0][K] + (k == 0 ? mu : q(0));
            xb[K] = r[0][K] + (k == 0 ? mu - 1 : q(0));
            q yz = conv(r[1], r[1], k) + conv(r[2], r[2], k);
            a2[K] = conv(xa, xa, k) + yz;
            b2[K] = conv(xb, xb, k) + yz;
            sa[K] = powk(a2, sa, -1.5q, k);
            sb[K] = powk(b2, sb, -1.5q, k);
            if (k < P) {
                q g[3];
                g[0] = 2 * v[1][K] + r[0][K] - (1 - mu) * conv(sa, xa, k) - mu * conv(sb, xb, k);
                g[1] = -2 * v[0][K] + r[1][K] - (1 - mu) * conv(sa, r[1], k) - mu * conv(sb, r[1], k);
                g[2] = -(1 - mu) * conv(sa, r[2], k) - mu * conv(sb, r[2], k);
                for (std::size_t i = 0; i < 3; ++i) {
                    r[i][K + 1] = v[i][K] / q(k + 1);
                    v[i][K + 1] = g[i] / q(k + 1);
                }
            }
        }
        q near = sqrtq(fminq(a2[0], b2[0]));
        if (r2min) {
            *r2min = fminq(*r2min, near);
        }
        q h = step_size(r, near);
        if (++steps > 4000 || !(h > 0) || isnanq(h)) {
            if (tr) {
                tr->bad = true;
            }
            return x;
        }
        h = h >= fabsq(left) ? left : copysignq(h, left);
        for (std::size_t i = 0; i < 3; ++i) {
            x[i] = horner(r[i], h);
            x[i + 3] = horner(v[i], h);
        }
        left = h == left ? q(0) : left - h;
    }
    if (tr) {
        tr->steps = steps;
    }
    return x;
}
inline q jacobi(const vec<6> &x, q mu)
{
    q a = sqrtq((x[0] + mu) * (x[0] + mu) + x[1] * x[1] + x[2] * x[2]), b = sqrtq((x[0] + mu - 1) * (x[0] + mu - 1) + x[1] * x[1] + x[2] * x[2]);
    return x[0] * x[0] + x[1] * x[1] + 2 * (1 - mu) / a + 2 * mu / b - x[3] * x[3] - x[4] * x[4] - x[5] * x[5];
}

// Derivatives of f (m outputs) at the inputs p: one-sided differences of relative size 1e-16 in 113-bit arithmetic.
// scale[j]: the natural size of input j. Truncation ~ 1e-16 of the second derivatives, roundoff below.
template <typename F>
std::vector<std::vector<q>> jacobian(F &&f, const std::vector<q> &p, const std::vector<double> &scale, std::vector<q> *f0 = nullptr)
{
    std::vector<q> y0 = f(p);
    std::vector<std::vector<q>> J(y0.size(), std::vector<q>(p.size()));
    for (std::size_t j = 0; j < p.size(); ++j) {
        auto x = p;
        q h = 1e-15q * q(scale[j]);
        x[j] += h;
        h = x[j] - p[j];
        auto y = f(x);
        for (std::size_t i = 0; i < y.size(); ++i) {
            J[i][j] = (y[i] - y0[i]) / h;
        }
    }
    if (f0) {
        *f0 = y0;
    }
    return J;
}
} // namespace tref
