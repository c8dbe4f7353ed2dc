// What pykep's Python layer takes from heyoka's Python package (the integrators and expressions its functions return), and
// the C++ library called without going through pykep's bindings, to compare with.
#include <sstream>

#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <heyoka/taylor.hpp>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/vsop2013.hpp>

namespace
{
using v = std::vector<double>;
using a3 = std::array<double, 3>;
using a6 = std::array<double, 6>;
using rv_t = std::array<a3, 2>;

struct in {
    const v &x;
    std::size_t i = 0;
    double d()
    {
        return x.at(i++);
    }
    a3 vec()
    {
        double a = d(), b = d(), c = d();
        return {a, b, c};
    }
    rv_t rv()
    {
        auto r = vec();
        return {r, vec()};
    }
    a6 six()
    {
        a6 r{};
        for (auto &q : r) {
            q = d();
        }
        return r;
    }
    v rest()
    {
        v r(x.begin() + static_cast<std::ptrdiff_t>(i), x.end());
        i = x.size();
        return r;
    }
};
template <typename C>
void add(v &o, const C &c)
{
    o.insert(o.end(), c.begin(), c.end());
}
void add(v &o, const rv_t &c)
{
    add(o, c[0]);
    add(o, c[1]);
}
template <typename R>
void add_ta(v &o, const R &ta, in &i)
{
    auto t = ta;
    for (std::size_t k = 0; k < 7 && k < t.get_n_orig_sv(); ++k) {
        t.get_state_data()[k] = i.d();
    }
    for (std::size_t k = 0; k < t.get_pars().size(); ++k) {
        t.get_pars_data()[k] = i.d();
    }
    t.propagate_until(i.d());
    add(o, t.get_state());
    o.push_back(t.get_tol());
}
template <typename L>
v leg_results(const L &l)
{
    v o;
    add(o, l.compute_mismatch_constraints());
    add(o, l.compute_throttle_constraints());
    o.push_back(l.get_nseg()), o.push_back(l.get_nseg_fwd()), o.push_back(l.get_nseg_bck());
    return o;
}
template <typename L>
v leg_gradients(const L &l)
{
    v o;
    auto g = l.compute_mc_grad();
    add(o, std::get<0>(g));
    add(o, std::get<1>(g));
    add(o, std::get<2>(g));
    add(o, l.compute_tc_grad());
    return o;
}
template <typename L>
L make_leg(in &i)
{
    auto rvs = i.rv();
    auto ms = i.d();
    auto rvf = i.rv();
    auto mf = i.d(), tof = i.d(), mt = i.d(), isp = i.d(), mu = i.d(), cut = i.d();
    return L(rvs, ms, i.rest(), rvf, mf, tof, mt, isp, mu, cut);
}
template <typename T>
std::string streamed(const T &x)
{
    std::ostringstream s;
    s << x;
    return s.str();
}

v call(const std::string &f, const v &x)
{
    using fun = double (*)(double, double);
    static const std::map<std::string, fun> anomalies = {
        {"m2e", kep3::m2e}, {"e2m", kep3::e2m}, {"m2f", kep3::m2f}, {"f2m", kep3::f2m}, {"e2f", kep3::e2f},
        {"f2e", kep3::f2e}, {"n2h", kep3::n2h}, {"h2n", kep3::h2n}, {"n2f", kep3::n2f}, {"f2n", kep3::f2n},
        {"h2f", kep3::h2f}, {"f2h", kep3::f2h}, {"zeta2f", kep3::zeta2f}, {"f2zeta", kep3::f2zeta}};
    in i{x};
    v o;
    if (auto it = anomalies.find(f); it != anomalies.end()) {
        double a = i.d(), e = i.d();
        return {it->second(a, e)};
    }
    if (f == "ic2par") {
        auto s = i.rv();
        add(o, kep3::ic2par(s, i.d()));
    } else if (f == "par2ic") {
        auto s = i.six();
        add(o, kep3::par2ic(s, i.d()));
    } else if (f == "ic2eq") {
        auto s = i.rv();
        auto mu = i.d();
        add(o, kep3::ic2eq(s, mu, i.d() != 0));
    } else if (f == "eq2ic") {
        auto s = i.six();
        auto mu = i.d();
        add(o, kep3::eq2ic(s, mu, i.d() != 0));
    } else if (f == "par2eq") {
        auto s = i.six();
        add(o, kep3::par2eq(s, i.d() != 0));
    } else if (f == "eq2par") {
        auto s = i.six();
        add(o, kep3::eq2par(s, i.d() != 0));
    } else if (f == "fb_con") {
        auto s = i.rv();
        auto mu = i.d();
        auto r = kep3::fb_con(s[0], s[1], mu, i.d());
        o = {r.first, r.second};
    } else if (f == "fb_dv") {
        auto s = i.rv();
        auto mu = i.d();
        o = {kep3::fb_dv(s[0], s[1], mu, i.d())};
    } else if (f == "fb_vout") {
        auto s = i.rv();
        auto rp = i.d(), beta = i.d();
        add(o, kep3::fb_vout(s[0], s[1], rp, beta, i.d()));
    } else if (f == "propagate_lagrangian") {
        auto s = i.rv();
        auto tof = i.d(), mu = i.d();
        auto r = kep3::propagate_lagrangian(s, tof, mu, i.d() != 0);
        add(o, r.first);
        if (r.second) {
            add(o, *r.second);
        }
    } else if (f == "lambert") {
        auto r0 = i.vec(), r1 = i.vec();
        auto tof = i.d(), mu = i.d();
        auto cw = i.d() != 0;
        kep3::lambert_problem l(r0, r1, tof, mu, cw, static_cast<unsigned>(i.d()));
        o.push_back(l.get_Nmax());
        for (const auto &s : l.get_v0()) {
            add(o, s);
        }
        for (const auto &s : l.get_v1()) {
            add(o, s);
        }
        add(o, l.get_x());
        add(o, l.get_iters());
        add(o, l.get_r0());
        add(o, l.get_r1());
        o.push_back(l.get_tof()), o.push_back(l.get_mu());
    } else if (f == "leg") {
        o = leg_results(make_leg<kep3::leg::sims_flanagan>(i));
    } else if (f == "leg_grad") {
        o = leg_gradients(make_leg<kep3::leg::sims_flanagan>(i));
    } else if (f == "hf") {
        auto tol = i.d();
        auto l = make_leg<kep3::leg::sims_flanagan_hf>(i);
        l.set_tol(tol);
        o = leg_results(l);
    } else if (f == "hf_grad") {
        auto tol = i.d();
        auto l = make_leg<kep3::leg::sims_flanagan_hf>(i);
        l.set_tol(tol);
        o = leg_gradients(l);
    } else if (f == "hf_history") {
        auto n = static_cast<unsigned>(i.d());
        auto tol = i.d();
        auto l = make_leg<kep3::leg::sims_flanagan_hf>(i);
        l.set_tol(tol);
        for (const auto &s : l.get_state_history(n)) {
            add(o, s);
        }
    } else if (f == "stark" || f == "stark_var") {
        auto mu = i.d(), veff = i.d(), tol = i.d();
        std::array<double, 7> s{};
        for (auto &q : s) {
            q = i.d();
        }
        auto u = i.vec();
        kep3::stark_problem p(mu, veff, tol);
        if (f == "stark") {
            add(o, p.propagate(s, u, i.d()));
        } else {
            auto r = p.propagate_var(s, u, i.d());
            add(o, std::get<0>(r));
            add(o, std::get<1>(r));
            add(o, std::get<2>(r));
        }
    } else if (f == "ta_stark") {
        add_ta(o, kep3::ta::get_ta_stark(i.d()), i);
    } else if (f == "ta_stark_var") {
        add_ta(o, kep3::ta::get_ta_stark_var(i.d()), i);
    } else if (f == "ta_cr3bp") {
        add_ta(o, kep3::ta::get_ta_cr3bp(i.d()), i);
    } else if (f == "ta_cr3bp_var") {
        add_ta(o, kep3::ta::get_ta_cr3bp_var(i.d()), i);
    } else if (f == "epoch") {
        auto when = i.d();
        kep3::epoch e(when, static_cast<kep3::epoch::julian_type>(static_cast<int>(i.d())));
        auto w = i.d();
        auto later = e + std::chrono::duration<double, std::ratio<86400>>(w), before = e - std::chrono::duration<double, std::ratio<86400>>(w);
        o = {e.mjd2000(), e.mjd(), e.jd(), later.mjd2000(), before.mjd2000()};
    } else {
        throw std::logic_error("no function " + f);
    }
    return o;
}
std::string written(const heyoka::expression &e)
{
    std::function<std::string(const heyoka::detail::node_ptr &)> w = [&](const heyoka::detail::node_ptr &n) {
        std::string r = std::to_string(static_cast<int>(n->o)) + n->name + "#" + std::to_string(n->idx) + "=" + std::to_string(n->val);
        for (const auto &a : n->args) {
            r += "(" + w(a) + ")";
        }
        return r;
    };
    return w(e.get());
}
kep3::planet make_planet(const std::string &kind, const std::string &name, const v &x)
{
    in i{x};
    if (kind == "jpl_lp") {
        return kep3::planet(kep3::udpla::jpl_lp(name));
    }
    if (kind == "vsop2013") {
        return kep3::planet(kep3::udpla::vsop2013(name, i.d()));
    }
    if (kind == "null") {
        return kep3::planet();
    }
    kep3::epoch ref(i.d());
    if (kind == "posvel") {
        auto s = i.rv();
        auto mu = i.d();
        return kep3::planet(kep3::udpla::keplerian(ref, s, mu, name, i.vec()));
    }
    auto s = i.six();
    auto mu = i.d();
    auto p = i.vec();
    return kep3::planet(kep3::udpla::keplerian(ref, s, mu, name, p, static_cast<kep3::elements_type>(static_cast<int>(i.d()))));
}
} // namespace

namespace pybind11
{
void standin_extra_classes(module_ &m)
{
    using ta_t = heyoka::taylor_adaptive<double>;
    class_<ta_t>(m, "_standin_taylor")
        .def_property("state", [](const ta_t &t) { return t.get_state(); },
                      [](ta_t &t, const std::vector<double> &s) {
                          if (s.size() > t.get_state().size()) {
                              throw std::invalid_argument("size of the state");
                          }
                          std::copy(s.begin(), s.end(), t.get_state_data());
                      })
        .def_property("pars", [](const ta_t &t) { return t.get_pars(); },
                      [](ta_t &t, const std::vector<double> &s) {
                          if (s.size() != t.get_pars().size()) {
                              throw std::invalid_argument("size of the pars");
                          }
                          std::copy(s.begin(), s.end(), t.get_pars_data());
                      })
        .def_property("time", &ta_t::get_time, &ta_t::set_time)
        .def_property_readonly("tol", &ta_t::get_tol)
        .def("propagate_until", [](ta_t &t, double x) { return static_cast<long>(std::get<0>(t.propagate_until(x))); });
    class_<heyoka::expression>(m, "_standin_expression").def("__repr__", [](const heyoka::expression &e) { return written(e); });
    m.def("_direct", &call);
    m.def("_direct_text", [](const std::string &f, const v &x) -> std::string {
        in i{x};
        if (f == "leg") {
            return streamed(make_leg<kep3::leg::sims_flanagan>(i));
        }
        if (f == "hf") {
            auto tol = i.d();
            auto l = make_leg<kep3::leg::sims_flanagan_hf>(i);
            l.set_tol(tol);
            return streamed(l);
        }
        if (f == "lambert") {
            auto r0 = i.vec(), r1 = i.vec();
            auto tof = i.d(), mu = i.d();
            auto cw = i.d() != 0;
            return streamed(kep3::lambert_problem(r0, r1, tof, mu, cw, static_cast<unsigned>(i.d())));
        }
        if (f == "stark") {
            auto mu = i.d(), veff = i.d();
            return streamed(kep3::stark_problem(mu, veff, i.d()));
        }
        if (f == "epoch") {
            return streamed(kep3::epoch(i.d()));
        }
        throw std::logic_error("no function " + f);
    });
    // (numbers, text) of a planet of the library at t
    m.def("_direct_planet", [](const std::string &kind, const std::string &name, const v &x, const std::string &what, double t, long el) {
        auto p = make_planet(kind, name, x);
        v o;
        std::string s;
        if (what == "eph") {
            add(o, p.eph(t));
        } else if (what == "period") {
            o = {p.period(t)};
        } else if (what == "elements") {
            add(o, p.elements(t, static_cast<kep3::elements_type>(el)));
        } else if (what == "numbers") {
            o = {p.get_mu_central_body(), p.get_mu_self(), p.get_radius(), p.get_safe_radius()};
        } else if (what == "name") {
            s = p.get_name();
        } else if (what == "extra_info") {
            s = p.get_extra_info();
        } else if (what == "text") {
            s = streamed(p);
        } else {
            throw std::logic_error("no function " + what);
        }
        return std::tuple<v, std::string>(o, s);
    });
    m.def("_direct_dynamics", [](const std::string &f) {
        std::vector<std::string> o;
        for (const auto &[l, r] : f == "stark" ? kep3::ta::stark_dyn() : kep3::ta::cr3bp_dyn()) {
            o.push_back(written(l));
            o.push_back(written(r));
        }
        return o;
    });
    m.def("_direct_constants", [] {
        return v{kep3::AU, kep3::CAVENDISH, kep3::MU_SUN, kep3::MU_EARTH, kep3::EARTH_VELOCITY, kep3::EARTH_J2, kep3::EARTH_RADIUS,
                 kep3::RAD2DEG, kep3::DEG2RAD, kep3::DAY2SEC, kep3::SEC2DAY, kep3::DAY2YEAR, kep3::G0, kep3::CR3BP_EARTH_MOON};
    });
}
} // namespace pybind11
