// Forward-error scale of two-body propagation.
#pragma once
#include "gen.hpp"

// What an error of a few ulps in the inputs does to the output, by the reference state transition matrix.
struct ErrScale {
    double r, v;
};
inline ErrScale err_scale(const gen::state &x, double tof, double mu, ErrScale in = {0., 0.})
{
    using ref::dn;
    const double C = 16 * gen::eps;
    auto qx = ref::up(x);
    auto M = ref::stm(qx, tof, mu);
    auto xf = ref::kepler(qx, tof, mu);
    double R = ref::dnorm(x[0]), V = ref::dnorm(x[1]);
    double rr = 0, rv = 0, vr = 0, vv = 0;
    for (std::size_t i = 0; i < 3; ++i) {
        for (std::size_t j = 0; j < 3; ++j) {
            rr += dn(M[i][j] * M[i][j]);
            rv += dn(M[i][j + 3] * M[i][j + 3]);
            vr += dn(M[i + 3][j] * M[i + 3][j]);
            vv += dn(M[i + 3][j + 3] * M[i + 3][j + 3]);
        }
    }
    rr = std::sqrt(rr), rv = std::sqrt(rv), vr = std::sqrt(vr), vv = std::sqrt(vv);
    double rf = dn(ref::norm(xf[0])), vf = dn(ref::norm(xf[1])), af = mu / rf / rf;
    // The formulas go through the semi-major axis: near a parabola |a| >> R and digits cancel.
    double a = 1. / std::abs(dn(2 / ref::norm(qx[0]) - ref::dot(qx[1], qx[1]) / mu));
    double can = 1 + a / R + a / rf;
    return {C * (rr * R + rv * V + vf * std::abs(tof) + rf) * can + rr * in.r + rv * in.v,
            C * (vr * R + vv * V + af * std::abs(tof) + vf) * can + vr * in.r + vv * in.v};
}
