// Reference two-body mechanics in 113-bit arithmetic, written from the textbook definitions and sharing no code with
// kep3: universal-variable Kepler propagation with a bracketed root search, numerical STM, element conversions.
#pragma once
#include <quadmath.h>

#include <array>
#include <cmath>

namespace ref
{
using q = __float128;
using qv3 = std::array<q, 3>;
using v3 = std::array<double, 3>;
using state = std::array<v3, 2>;
using qstate = std::array<qv3, 2>;
using q6 = std::array<q, 6>;
using d6 = std::array<double, 6>;

inline const q qpi = M_PIq;

inline q dot(const qv3 &a, const qv3 &b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline qv3 cross(const qv3 &a, const qv3 &b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline q norm(const qv3 &a)
{
    return sqrtq(dot(a, a));
}
inline qv3 scale(const qv3 &a, q s)
{
    return {a[0] * s, a[1] * s, a[2] * s};
}
inline qv3 add(const qv3 &a, const qv3 &b)
{
    return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline qv3 sub(const qv3 &a, const qv3 &b)
{
    return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline qv3 up(const v3 &a)
{
    return {a[0], a[1], a[2]};
}
inline qstate up(const state &s)
{
    return {up(s[0]), up(s[1])};
}
inline double dn(q x)
{
    return static_cast<double>(x);
}
inline v3 dn(const qv3 &a)
{
    return {dn(a[0]), dn(a[1]), dn(a[2])};
}
inline state dn(const qstate &s)
{
    return {dn(s[0]), dn(s[1])};
}
inline double dnorm(const v3 &a)
{
    return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
}
inline v3 dsub(const v3 &a, const v3 &b)
{
    return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline double ddot(const v3 &a, const v3 &b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline v3 dcross(const v3 &a, const v3 &b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline double dist(const v3 &a, const qv3 &b)
{
    return dn(norm(sub(up(a), b)));
}

// Stumpff functions c2(psi), c3(psi), also for psi of either sign.
inline void stumpff(q psi, q &c2, q &c3)
{
    if (fabsq(psi) < 0.5q) {
        // c_k = sum (-psi)^n/(2n+k)!
        q t2 = 0.5q, t3 = 1.0q / 6;
        c2 = t2;
        c3 = t3;
        for (int n = 1; n < 24; ++n) {
            t2 *= -psi / ((2 * n + 1) * (2 * n + 2));
            t3 *= -psi / ((2 * n + 2) * (2 * n + 3));
            c2 += t2;
            c3 += t3;
        }
    } else if (psi > 0) {
        q s = sqrtq(psi);
        c2 = (1 - cosq(s)) / psi;
        c3 = (s - sinq(s)) / (psi * s);
    } else {
        q s = sqrtq(-psi);
        c2 = (coshq(s) - 1) / (-psi);
        c3 = (sinhq(s) - s) / (-psi * s);
    }
}

// Propagates a state for a time tof. Full accuracy for any conic except rectilinear motion.
inline qstate kepler(const qstate &x, q tof, q mu)
{
    const auto &r0 = x[0];
    const auto &v0 = x[1];
    q r = norm(r0), smu = sqrtq(mu);
    q rv = dot(r0, v0) / smu; // sigma0
    q alpha = 2 / r - dot(v0, v0) / mu;
    q t = tof;
    if (t == 0) {
        return x;
    }
    q lo = 0, hi = 0;
    bool neg = false;
    if (alpha > 0) {
        q period = 2 * qpi / (smu * alpha * sqrtq(alpha));
        t = t - floorq(t / period) * period; // [0, period)
        lo = 0;
        hi = 2 * qpi / sqrtq(alpha);
    } else {
        neg = t < 0;
    }
    q s = neg ? -1 : 1;
    // Solve F(chi) = smu*t with chi>0, sign handled by time reversal.
    q tt = s * t, sg = s * rv;
    auto F = [&](q chi, q &d) {
        q c2 = 0, c3 = 0, psi = alpha * chi * chi;
        stumpff(psi, c2, c3);
        d = chi * chi * c2 + sg * chi * (1 - psi * c3) + r * (1 - psi * c2); // = r(chi)
        return sg * chi * chi * c2 + (1 - alpha * r) * chi * chi * chi * c3 + r * chi - smu * tt;
    };
    q d = 0;
    if (alpha <= 0) {
        hi = smu * tt / r;
        if (hi > 1e-3q * sqrtq(r)) {
            hi = 1e-3q * sqrtq(r);
        }
        while (F(hi, d) < 0) {
            lo = hi;
            hi *= 2;
        }
    }
    q chi = (lo + hi) / 2;
    for (int it = 0; it < 400; ++it) {
        q f = F(chi, d);
        if (f == 0) {
            break;
        }
        if (f > 0) {
            hi = chi;
        } else {
            lo = chi;
        }
        q nx = chi - f / d;
        if (!(nx > lo && nx < hi)) {
            nx = (lo + hi) / 2;
        }
        q ch = fabsq(nx - chi);
        chi = nx;
        if (ch <= 1e-33q * fabsq(chi) || hi - lo <= 1e-33q * fabsq(hi)) {
            break;
        }
    }
    q c2 = 0, c3 = 0, psi = alpha * chi * chi;
    stumpff(psi, c2, c3);
    q rf = chi * chi * c2 + sg * chi * (1 - psi * c3) + r * (1 - psi * c2);
    q f = 1 - chi * chi / r * c2;
    q g = tt - chi * chi * chi / smu * c3;
    q fd = smu / (rf * r) * chi * (psi * c3 - 1);
    q gd = 1 - chi * chi / rf * c2;
    qv3 v = scale(v0, s);
    qstate o;
    o[0] = add(scale(r0, f), scale(v, g));
    o[1] = scale(add(scale(r0, fd), scale(v, gd)), s);
    return o;
}
inline qstate kepler(const state &x, double tof, double mu)
{
    return kepler(up(x), q(tof), q(mu));
}

// Numerical state transition matrix by central differences in quad precision (error ~1e-19 relative).
// M[i][j] = d out_i / d in_j.
inline std::array<std::array<q, 6>, 6> stm(const qstate &x, q tof, q mu)
{
    std::array<std::array<q, 6>, 6> M{};
    q rs = norm(x[0]), vs = norm(x[1]);
    q vc = sqrtq(mu / rs);
    if (vs < vc) {
        vs = vc;
    }
    for (int j = 0; j < 6; ++j) {
        q h = (j < 3 ? rs : vs) * 1e-10q;
        std::array<qstate, 4> o;
        int k = 0;
        for (int m : {-2, -1, 1, 2}) {
            auto y = x;
            y[static_cast<std::size_t>(j / 3)][static_cast<std::size_t>(j % 3)] += m * h;
            o[static_cast<std::size_t>(k++)] = kepler(y, tof, mu);
        }
        for (std::size_t i = 0; i < 6; ++i) {
            q d1 = o[2][i / 3][i % 3] - o[1][i / 3][i % 3];
            q d2 = o[3][i / 3][i % 3] - o[0][i / 3][i % 3];
            M[i][static_cast<std::size_t>(j)] = (8 * d1 - d2) / (12 * h);
        }
    }
    return M;
}

// Acceleration derivative helper: d(state)/dt.
inline q6 dyn(const qstate &x, q mu)
{
    q r = norm(x[0]);
    q k = -mu / (r * r * r);
    return {x[1][0], x[1][1], x[1][2], k * x[0][0], k * x[0][1], k * x[0][2]};
}

struct Elem {
    q a, e, i, W, w, f, p;
    qv3 evec, h;
};

inline q wrap(q x) // [0, 2pi)
{
    x = x - floorq(x / (2 * qpi)) * (2 * qpi);
    return x;
}
inline double angdiff(double a, q b) // |a-b| modulo 2 pi
{
    q d = q(a) - b;
    d = d - roundq(d / (2 * qpi)) * (2 * qpi);
    return dn(fabsq(d));
}

// Classical elements from a state, by atan2 throughout (no acos).
inline Elem elements(const qstate &x, q mu)
{
    Elem o{};
    const auto &r = x[0];
    const auto &v = x[1];
    o.h = cross(r, v);
    q hn = norm(o.h), rn = norm(r);
    o.p = hn * hn / mu;
    o.evec = sub(scale(cross(v, o.h), 1 / mu), scale(r, 1 / rn));
    o.e = norm(o.evec);
    o.a = 1 / (2 / rn - dot(v, v) / mu);
    o.i = atan2q(sqrtq(o.h[0] * o.h[0] + o.h[1] * o.h[1]), o.h[2]);
    o.W = wrap(atan2q(o.h[0], -o.h[1]));
    qv3 n{cosq(o.W), sinq(o.W), 0};
    qv3 m = scale(cross(o.h, n), 1 / hn);
    o.w = wrap(atan2q(dot(o.evec, m), dot(o.evec, n)));
    q th = atan2q(dot(r, m), dot(r, n));
    o.f = wrap(th - o.w);
    return o;
}

// State from classical elements, with p given separately to avoid a(1-e^2) questions.
inline qstate from_elements(q p, q e, q i, q W, q w, q f, q mu)
{
    q r = p / (1 + e * cosq(f)), s = sqrtq(mu / p);
    q u = w + f;
    qv3 n{cosq(W), sinq(W), 0};
    qv3 m{-sinq(W) * cosq(i), cosq(W) * cosq(i), sinq(i)};
    qstate o;
    o[0] = scale(add(scale(n, cosq(u)), scale(m, sinq(u))), r);
    // v = s * [ -(sin u + e sin w) n + (cos u + e cos w) m ]
    o[1] = scale(add(scale(n, -(sinq(u) + e * sinq(w))), scale(m, cosq(u) + e * cosq(w))), s);
    return o;
}
} // namespace ref
