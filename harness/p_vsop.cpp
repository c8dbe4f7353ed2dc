// K27: the VSOP2013 ephemerides. The theory itself is heyoka's; shim/heyoka/standin_cfunc.hpp stands in for it with mean
// Keplerian motion plus a term proportional to the threshold. What is checked is kep3's part: which planet, which
// threshold, which instant, which units, and that every object keeps its own function alive.
#include <algorithm>
#include <cctype>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <heyoka/model/vsop2013.hpp>

#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/vsop2013.hpp>

#include "prop.hpp"

using namespace gen;
using kep3::udpla::vsop2013;

namespace
{
const std::vector<std::string> names = {"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
// The stand-in compiles a limited number of functions and kep3 keeps them all: few thresholds.
const std::vector<double> thresholds = {1e-5, 0.5, 0., 1.0000001e-5, 1e-9, 2., 7e-10, 1e-12, 3e-200};

struct Body {
    std::size_t planet = 0;
    double thresh = 1e-5;
};
Body body(Case &c)
{
    return {static_cast<std::size_t>(c.integer(0, 8)), c.pickv(thresholds)};
}
std::string spelled(Case &c, const std::string &n)
{
    std::string s = n;
    int how = static_cast<int>(c.integer(0, 3));
    auto bits = c.u64();
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (how == 1 || (how == 2 && i == 0) || (how == 3 && ((bits >> i) & 1u) != 0)) {
            s[i] = static_cast<char>(std::toupper(s[i]));
        }
    }
    c.show("name", s);
    return s;
}
double date(Case &c)
{
    switch (c.integer(0, 4)) {
        case 0:
            return c.pick({0., 0.5, 1., -0.5, 365250.5, 123.});
        case 1:
            return c.real(-1., 1.);
        default:
            return c.real(-200000., 200000.);
    }
}
// SI units, J2000 + so many days.
struct Eph {
    std::array<std::array<double, 3>, 2> x{};
    double scale[2] = {1, 1}; // size of rounding errors: 16 eps times this
};
Eph model(const Body &b, double mjd2000)
{
    using ref::q;
    // From MJD2000 (midnight) to J2000 (noon), in thousands of Julian years.
    q T = (q(mjd2000) - 0.5q) / 365250;
    auto [a, e, i, W, w, M0, n] = heyoka::model::standin_elements(static_cast<std::uint32_t>(b.planet + 1));
    q M = M0 + q(n) * T, Ea = M;
    for (int k = 0; k < 60; ++k) {
        Ea -= (Ea - e * sinq(Ea) - M) / (1 - e * cosq(Ea));
    }
    q X = a * (cosq(Ea) - e), Y = a * sqrtq(1 - q(e) * e) * sinq(Ea), Ed = q(n) / 365250 / (1 - e * cosq(Ea));
    q VX = -a * sinq(Ea) * Ed, VY = a * sqrtq(1 - q(e) * e) * cosq(Ea) * Ed;
    q cW = cosq(W), sW = sinq(W), cw = cosq(w), sw = sinq(w), ci = cosq(i), si = sinq(i);
    q P[3] = {cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si}, Q[3] = {-cW * sw - sW * cw * ci, -sW * sw + cW * cw * ci, cw * si};
    Eph r;
    const q AU = 149597870700.0q, day = 86400;
    for (int k = 0; k < 3; ++k) {
        r.x[0][k] = ref::dn((P[k] * X + Q[k] * Y + b.thresh * (k + 1) * cosq(T)) * AU);
        r.x[1][k] = ref::dn((P[k] * VX + Q[k] * VY - b.thresh * (k + 1) * sinq(T) / 365250) * AU / day);
    }
    double phase = 4 + std::abs(ref::dn(M)); // the phase is rounded, then passes Kepler's equation
    double amp = (a / (1 - e) * phase / (1 - e) + 3 * b.thresh * (1 + std::abs(ref::dn(T)))) * 149597870700.0;
    r.scale[0] = amp;
    r.scale[1] = (a * n / 365250 / (1 - e) / (1 - e) * phase / (1 - e) + 3 * b.thresh / 365250 * (1 + std::abs(ref::dn(T)))) * 149597870700.0 / 86400.;
    return r;
}
void same(Case &c, const std::string &what, const std::array<std::array<double, 3>, 2> &got, const Body &b, double t)
{
    auto m = model(b, t);
    for (std::size_t i = 0; i < 2; ++i) {
        for (std::size_t k = 0; k < 3; ++k) {
            c.close(what + (i == 0 ? " position" : " velocity"), got[i][k], m.x[i][k], 16 * eps * m.scale[i]);
        }
    }
}
void named(Case &c, const std::string &got, const Body &b)
{
    c.check(got.find(names[b.planet]) != std::string::npos, "the name does not tell the planet: " + got);
    auto p = got.find("threshold=");
    c.check(p != std::string::npos && std::strtod(got.c_str() + p + 10, nullptr) == b.thresh, "the name does not tell the threshold: " + got);
}
} // namespace

PROP("K27", "ephemerides", 20000, 400000, "a date more than ten years from 2000, a threshold other than the default")
{
    auto b = body(c);
    auto n = spelled(c, names[b.planet]);
    double t = date(c);
    c.show("threshold", b.thresh);
    c.show("mjd2000", t);
    std::unique_ptr<vsop2013> v;
    if (b.thresh == 1e-5 && c.chance(0.5)) {
        v = b.planet == 0 && c.chance(0.5) ? std::make_unique<vsop2013>() : std::make_unique<vsop2013>(n);
    } else {
        v = std::make_unique<vsop2013>(n, b.thresh);
    }
    same(c, "ephemeris", v->eph(t), b, t);
    named(c, v->get_name(), b);
    kep3::planet p{*v};
    c.check(p.eph(t) == v->eph(t) && p.get_name() == v->get_name(), "the planet does not report what its body declares");
    // What the body does not declare.
    c.check(p.get_mu_central_body() == -1 && p.get_mu_self() == -1 && p.get_radius() == -1 && p.get_safe_radius() == -1, "another default than -1");
    std::vector<double> ts = {t, t + 1, t - 1000.25};
    auto all = p.eph_v(ts);
    c.check(all.size() == 18u, "vectorised ephemerides of another size");
    for (std::size_t k = 0; k < 3; ++k) {
        auto e = v->eph(ts[k]);
        for (std::size_t i = 0; i < 6; ++i) {
            c.check(all[6 * k + i] == e[i / 3][i % 3], "vectorised ephemerides differ");
        }
    }
    c.label(names[b.planet]);
    c.nontrivial(std::abs(t) > 3652.5 && b.thresh != 1e-5);
}

PROP("K27", "refusals", 5000, 50000, "the name is one letter away from a planet's, or the threshold is just invalid")
{
    auto b = body(c);
    std::string n = names[b.planet];
    double th = b.thresh;
    bool near = false;
    switch (c.integer(0, 4)) {
        case 0:
            th = c.pick({-1e-300, -1., -5e-324, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
            near = true;
            break;
        case 1: {
            auto k = static_cast<std::size_t>(c.integer(0, static_cast<long>(n.size()) - 1));
            n.erase(k, 1);
            near = true;
            break;
        }
        case 2: {
            auto k = static_cast<std::size_t>(c.integer(0, static_cast<long>(n.size())));
            n.insert(k, 1, c.pick({' ', 'x', '\0', '_', '1'}));
            near = true;
            break;
        }
        case 3:
            n = c.pick({"", "earth", "moon", "sun", "earth moon", "emb", "ceres", "earth-moon", "mercuryvenus"});
            break;
        default: {
            n.clear();
            long len = c.integer(0, 12);
            for (long k = 0; k < len; ++k) {
                n.push_back(static_cast<char>(c.integer(1, 255)));
            }
        }
    }
    if (std::isfinite(th) && th >= 0) {
        std::string low = n;
        std::transform(low.begin(), low.end(), low.begin(), [](unsigned char x) { return static_cast<char>(std::tolower(x)); });
        if (std::find(names.begin(), names.end(), low) != names.end()) {
            c.discard();
        }
    }
    c.show("name", n);
    c.show("threshold", th);
    bool refused = false;
    try {
        vsop2013 v(n, th);
    } catch (const std::invalid_argument &) {
        refused = true;
    }
    c.check(refused, "accepted");
    // The refused request has left nothing behind.
    vsop2013 v(names[b.planet], b.thresh);
    same(c, "ephemeris after a refusal", v.eph(10.), b, 10.);
    c.nontrivial(near);
}

PROP("K27", "histories_of_objects", 5000, 100000, "an object used after the one it was made from, or an archive, is gone")
{
    // Several objects; the model holds what each must be (nothing: moved from or destroyed).
    struct Item {
        std::unique_ptr<vsop2013> v;
        std::unique_ptr<kep3::planet> p;
        Body b;
    };
    Item pool[4];
    bool outlived = false;
    int steps = static_cast<int>(c.integer(2, 14));
    std::string log;
    for (int k = 0; k < steps; ++k) {
        auto i = static_cast<std::size_t>(c.integer(0, 3)), j = static_cast<std::size_t>(c.integer(0, 3));
        auto &a = pool[i], &b = pool[j];
        long op = c.integer(0, 9);
        log += std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + " ";
        c.show("steps", log);
        switch (op) {
            case 0:
                a.b = body(c);
                a.v = std::make_unique<vsop2013>(names[a.b.planet], a.b.thresh);
                a.p.reset();
                break;
            case 1: // copy construction
                if (b.v && i != j) {
                    a.v = std::make_unique<vsop2013>(*b.v);
                    a.b = b.b;
                    a.p.reset();
                }
                break;
            case 2: // copy assignment, to itself too
                if (a.v && b.v) {
                    *a.v = *b.v;
                    a.b = b.b;
                    a.p.reset();
                }
                break;
            case 3: // move construction; the other one goes away
                if (b.v && i != j) {
                    a.v = std::make_unique<vsop2013>(std::move(*b.v));
                    a.b = b.b;
                    a.p.reset();
                    b.v.reset();
                    b.p.reset();
                    outlived = true;
                }
                break;
            case 4: // move assignment; the other one is assigned again
                if (a.v && b.v && i != j) {
                    *a.v = std::move(*b.v);
                    a.b = b.b;
                    a.p.reset();
                    b.b = body(c);
                    *b.v = vsop2013(names[b.b.planet], b.b.thresh);
                    b.p.reset();
                    outlived = true;
                }
                break;
            case 5: // saved and loaded
                if (b.v) {
                    std::stringstream st;
                    {
                        boost::archive::binary_oarchive oa(st);
                        oa << static_cast<const vsop2013 &>(*b.v);
                    }
                    if (i != j) {
                        b.v.reset();
                        b.p.reset();
                    }
                    auto n = std::make_unique<vsop2013>();
                    if (c.chance(0.5)) {
                        *n = vsop2013("pluto", 0.5);
                    }
                    boost::archive::binary_iarchive ia(st);
                    ia >> *n;
                    a.v = std::move(n);
                    a.b = b.b;
                    a.p.reset();
                    outlived = true;
                }
                break;
            case 6:
                a.v.reset();
                a.p.reset();
                outlived = true;
                break;
            case 7: // inside a planet, which outlives it
                if (a.v) {
                    a.p = std::make_unique<kep3::planet>(*a.v);
                    if (c.chance(0.5)) {
                        auto z = std::make_unique<kep3::planet>(*a.p);
                        a.p = std::move(z);
                    }
                    outlived = true;
                }
                break;
            case 8: // a planet saved and loaded
                if (a.p) {
                    std::stringstream st;
                    {
                        boost::archive::binary_oarchive oa(st);
                        oa << *a.p;
                    }
                    auto z = std::make_unique<kep3::planet>();
                    boost::archive::binary_iarchive ia(st);
                    ia >> *z;
                    a.p = std::move(z);
                    outlived = true;
                }
                break;
            default:
                std::swap(a.v, b.v);
                std::swap(a.b, b.b);
                std::swap(a.p, b.p);
        }
        double t = date(c);
        for (auto &z : pool) {
            if (z.v) {
                same(c, "object", z.v->eph(t), z.b, t);
                named(c, z.v->get_name(), z.b);
                c.check(z.v->eph(t) == vsop2013(names[z.b.planet], z.b.thresh).eph(t), "differs from a new object");
            }
            if (z.v && z.p) {
                same(c, "planet", z.p->eph(t), z.b, t);
                named(c, z.p->get_name(), z.b);
            }
        }
    }
    c.nontrivial(outlived);
}
