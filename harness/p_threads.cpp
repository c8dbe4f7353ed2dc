// K28: several threads at once. Built with the thread sanitizer: a data race ends the worker, and the case is a failure.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/vsop2013.hpp>

#include "prop.hpp"

using namespace gen;
using a3 = std::array<double, 3>;
using a6 = std::array<double, 6>;
using a7 = std::array<double, 7>;
using dv = std::vector<double>;
using ta_t = heyoka::taylor_adaptive<double>;

namespace
{
template <typename A>
void add(dv &r, const A &a)
{
    if constexpr (requires { a.begin(); }) {
        for (const auto &x : a) {
            add(r, x);
        }
    } else {
        r.push_back(static_cast<double>(a));
    }
}
bool identical(const dv &a, const dv &b)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) {
            return false;
        }
    }
    return true;
}

// Objects that all threads read.
struct Shared {
    std::unique_ptr<const kep3::planet> kep, jpl, vsop;
    std::unique_ptr<const kep3::lambert_problem> lambert;
    std::unique_ptr<const kep3::leg::sims_flanagan> leg;
    std::unique_ptr<const kep3::leg::sims_flanagan_hf> hf;
    std::unique_ptr<const kep3::stark_problem> stark;
    kep3::epoch ep{};
};

struct Op {
    int kind = 0;
    dv p;       // numbers in [0, 1)
    double tol; // of integrators
    double thr; // of VSOP2013
    int planet = 0;
};
const std::vector<std::string> kinds = {"anomalies", "elements", "propagation", "transition matrix", "Lambert", "leg", "fly-by", "epoch", "shared planets",
                                        "shared Lambert solution", "shared leg", "own Keplerian planet", "own VSOP2013 planet", "stark cache", "stark_var cache",
                                        "cr3bp cache", "cr3bp_var cache", "Stark problem", "high-fidelity leg", "copies of shared objects", "printing"};
const char *vnames[] = {"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};

a6 elements(const dv &p)
{
    return {0.8 + p[0], 0.1 + 0.6 * p[1], 0.2 + 2 * p[2], 0.2 + 5 * p[3], 0.2 + 5 * p[4], 6 * p[5]};
}
a7 with_mass(const std::array<a3, 2> &s, double m)
{
    return {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], m};
}
dv throttles(const dv &p, std::size_t n)
{
    dv t;
    for (std::size_t i = 0; i < 3 * n; ++i) {
        t.push_back(0.1 + 0.4 * p[i % p.size()]);
    }
    return t;
}

dv fly(const ta_t &r, const dv &p, std::size_t ns)
{
    ta_t t = r;
    for (std::size_t i = 0; i < ns; ++i) {
        t.get_state_data()[i] = 0.6 + 0.5 * p[i];
    }
    t.get_pars_data()[0] = 0.3 * p[0];
    (void)t.propagate_for(0.05);
    dv o;
    add(o, t.get_state());
    return o;
}

dv run(const Op &o, const Shared &s)
{
    dv r;
    const auto &p = o.p;
    auto el = elements(p);
    auto st = kep3::par2ic(el, 1.);
    switch (o.kind) {
        case 0:
            for (double x : p) {
                add(r, dv{kep3::m2e(6 * x, 0.9 * p[1]), kep3::e2f(6 * x, 0.9 * p[1]), kep3::f2e(6 * x, 0.5), kep3::n2h(6 * x, 1.1 + p[2]), kep3::f2zeta(x, 1.5), kep3::m2f(x, 0.3)});
            }
            break;
        case 1:
            add(r, st);
            add(r, kep3::ic2par(st, 1.));
            add(r, kep3::ic2eq(st, 1., false));
            add(r, kep3::eq2ic(kep3::ic2eq(st, 1., true), 1., true));
            add(r, kep3::eq2par(kep3::par2eq(el, false), false));
            break;
        case 2:
            add(r, kep3::propagate_lagrangian(st, 5 * p[6], 1.).first);
            add(r, kep3::propagate_lagrangian_u(st, 5 * p[6], 1.).first);
            add(r, kep3::propagate_keplerian(st, 5 * p[6], 1.).first);
            for (const auto &x : kep3::propagate_lagrangian_v(st, {0., p[1], 3 * p[2]}, 1.)) {
                add(r, x.first);
            }
            break;
        case 3: {
            auto x = kep3::propagate_lagrangian(st, 5 * p[6], 1., true);
            add(r, x.second.value());
            add(r, kep3::stm_reynolds(st, x.first, 5 * p[6], 1.));
            add(r, kep3::propagate_stm_reynolds(st, 2 * p[6], 1., true).second.value());
            break;
        }
        case 4: {
            kep3::lambert_problem l({1., 0.1 * p[0], 0.1}, {-0.3 - p[1], 0.8 + p[2], 0.2 * p[3]}, 2 + 30 * p[4], 1., p[5] > 0.5, static_cast<unsigned>(4 * p[6]));
            add(r, l.get_v0());
            add(r, l.get_v1());
            add(r, l.get_x());
            add(r, l.get_iters());
            break;
        }
        case 5: {
            auto n = static_cast<std::size_t>(1 + 5 * p[0]);
            kep3::leg::sims_flanagan l(st, 1., throttles(p, n), kep3::par2ic(elements(p), 1.), 0.8, 1 + 3 * p[1], 0.1, 2., 1., p[2]);
            add(r, l.compute_mismatch_constraints());
            add(r, l.compute_throttle_constraints());
            auto [a, b, c] = l.compute_mc_grad();
            add(r, a);
            add(r, b);
            add(r, c);
            add(r, l.compute_tc_grad());
            break;
        }
        case 6: {
            a3 vi{0.5 + p[0], p[1], -p[2]}, vo{p[3], 0.4 + p[4], p[5]}, vp{1, p[6], 0};
            add(r, dv{kep3::fb_con(vi, vo, 1., 1.1).first, kep3::fb_con(vi, vo, 1., 1.1).second, kep3::fb_dv(vi, vo, 1., 1.1)});
            add(r, kep3::fb_vout(vi, vp, 1.2, p[0], 1.));
            break;
        }
        case 7: {
            kep3::epoch e(1990 + static_cast<int>(40 * p[0]), 1 + static_cast<unsigned>(12 * p[1]), 1 + static_cast<unsigned>(28 * p[2]), 5);
            kep3::epoch f("2021-03-0" + std::to_string(1 + static_cast<int>(8 * p[3])));
            add(r, dv{e.mjd2000(), e.jd(), f.mjd(), (f + std::chrono::days{3}).mjd2000(), e < f ? 1. : 0.});
            for (char x : e.as_utc_string() + f.as_utc_string()) {
                r.push_back(x);
            }
            break;
        }
        case 8:
            for (const auto *z : {s.kep.get(), s.jpl.get(), s.vsop.get()}) {
                add(r, z->eph(3000 * p[1]));
                add(r, z->eph(kep3::epoch(3000 * p[2])));
                add(r, z->eph_v(dv{1., 2. * p[3]}));
                add(r, dv{z->get_radius(), z->get_mu_self(), z->get_mu_central_body()});
            }
            add(r, s.jpl->elements(100 * p[0], kep3::elements_type::MEQ));
            add(r, dv{s.jpl->period(100 * p[0]), s.kep->period(0.)});
            add(r, s.kep->elements(0., kep3::elements_type::KEP_M));
            break;
        case 9:
            add(r, s.lambert->get_v0());
            add(r, s.lambert->get_v1());
            add(r, s.lambert->get_x());
            break;
        case 10: {
            add(r, s.leg->compute_mismatch_constraints());
            add(r, s.leg->compute_throttle_constraints());
            auto [a, b, c] = s.leg->compute_mc_grad();
            add(r, a);
            add(r, b);
            add(r, c);
            break;
        }
        case 11: {
            kep3::planet k{kep3::udpla::keplerian(s.ep, st, 1., "x", {1., 2., 3.})};
            add(r, k.eph(0.00001 * p[0]));
            kep3::planet j{kep3::udpla::jpl_lp("mars")};
            add(r, j.eph(5000 * p[0]));
            break;
        }
        case 12: {
            kep3::udpla::vsop2013 v(vnames[o.planet], o.thr);
            add(r, v.eph(3000 * p[0]));
            auto w = v;
            kep3::planet z{std::move(w)};
            add(r, z.eph(3000 * p[1]));
            break;
        }
        case 13:
            add(r, fly(kep3::ta::get_ta_stark(o.tol), p, 7));
            add(r, dv{kep3::ta::get_ta_stark_cache_dim() > 0 ? 1. : 0.});
            break;
        case 14:
            add(r, fly(kep3::ta::get_ta_stark_var(o.tol), p, 7));
            add(r, dv{kep3::ta::get_ta_stark_var_cache_dim() > 0 ? 1. : 0.});
            break;
        case 15:
            add(r, fly(kep3::ta::get_ta_cr3bp(o.tol), p, 6));
            add(r, dv{kep3::ta::get_ta_cr3bp_cache_dim() > 0 ? 1. : 0.});
            break;
        case 16:
            add(r, fly(kep3::ta::get_ta_cr3bp_var(o.tol), p, 6));
            add(r, dv{kep3::ta::get_ta_cr3bp_var_cache_dim() > 0 ? 1. : 0.});
            break;
        case 17: {
            kep3::stark_problem q(1., 1. + p[0], o.tol);
            add(r, q.propagate(with_mass(st, 1.), {0.01, 0.02 * p[1], 0.}, 0.2));
            auto [a, b, c] = q.propagate_var(with_mass(st, 1.), {0.01, 0.02 * p[1], 0.01}, 0.1);
            add(r, a);
            add(r, b);
            add(r, c);
            break;
        }
        case 18: {
            auto n = static_cast<std::size_t>(1 + 2 * p[0]);
            kep3::leg::sims_flanagan_hf l(with_mass(st, 1.), throttles(p, n), with_mass(st, 0.8), 0.3, 0.05, 2., 1., 0.5, o.tol);
            add(r, l.compute_mismatch_constraints());
            auto [a, b, c] = l.compute_mc_grad();
            add(r, a);
            add(r, b);
            add(r, c);
            add(r, l.get_state_history(2));
            break;
        }
        case 19: {
            auto l = *s.leg;
            l.set_tof(1.5);
            add(r, l.compute_mismatch_constraints());
            auto h = *s.hf;
            add(r, h.compute_mismatch_constraints());
            auto q = *s.stark;
            add(r, q.propagate(with_mass(st, 1.), {0.01, 0.02, 0.}, 0.1));
            auto z = *s.vsop;
            add(r, z.eph(10 * p[0]));
            auto k = *s.kep;
            add(r, k.eph(0.001 * p[0]));
            break;
        }
        default: {
            std::ostringstream t;
            t << *s.kep << *s.jpl << *s.leg << *s.lambert << s.ep;
            for (char x : t.str()) {
                r.push_back(x);
            }
        }
    }
    return r;
}

Shared shared(const dv &p)
{
    Shared s;
    auto st = kep3::par2ic(elements(p), 1.);
    s.kep = std::make_unique<const kep3::planet>(kep3::udpla::keplerian(kep3::epoch(0.), st, 1., "k", {-1., -1., -1.}));
    s.jpl = std::make_unique<const kep3::planet>(kep3::udpla::jpl_lp("saturn"));
    s.vsop = std::make_unique<const kep3::planet>(kep3::udpla::vsop2013("earth_moon", 1e-5));
    s.lambert = std::make_unique<const kep3::lambert_problem>(a3{1, 0, 0}, a3{0.1, 1, 0.2}, 12., 1., false, 2u);
    s.leg = std::make_unique<const kep3::leg::sims_flanagan>(st, 1., throttles(p, 4), kep3::par2ic({1.2, 0.1, 1., 1., 1., 2.}, 1.), 0.8, 2., 0.1, 2., 1., 0.4);
    s.hf = std::make_unique<const kep3::leg::sims_flanagan_hf>(with_mass(st, 1.), throttles(p, 2), with_mass(st, 0.9), 0.2, 0.05, 2., 1., 0.5, 1e-10);
    s.stark = std::make_unique<const kep3::stark_problem>(1., 2., 1e-10);
    return s;
}
int new_thresholds = 0; // the stand-in compiles a limited number of functions and kep3 keeps them all
} // namespace

PROP("K28", "random_threads", 4000, 100000, "two threads at least do the same kind of thing at once")
{
    auto n = static_cast<std::size_t>(c.integer(2, 4));
    // A few kinds per case, so that the threads meet.
    std::vector<int> use;
    auto nk = c.integer(1, 3);
    for (long k = 0; k < nk; ++k) {
        use.push_back(static_cast<int>(c.integer(0, static_cast<long>(kinds.size()) - 1)));
        c.label(kinds[static_cast<std::size_t>(use.back())]);
    }
    // Tolerances and thresholds nobody has asked for yet, and an old one.
    double tols[3] = {1e-9 * (1 + c.unit()), 1e-10 * (1 + c.unit()), 1e-10};
    double thrs[2] = {1e-5, 1e-5 * (1 + c.unit())};
    if (new_thresholds > 1500) {
        thrs[1] = 1e-5;
    }
    dv base;
    for (int k = 0; k < 12; ++k) {
        base.push_back(c.unit());
    }
    std::vector<std::vector<Op>> plan(n);
    std::string log;
    std::vector<int> count(kinds.size(), 0);
    for (auto &t : plan) {
        auto len = c.integer(1, 4);
        std::vector<bool> mine(kinds.size(), false);
        for (long k = 0; k < len; ++k) {
            Op o;
            o.kind = c.pickv(use);
            o.p = base;
            if (c.chance(0.5)) { // often the same problem, sometimes another one
                o.p[static_cast<std::size_t>(c.integer(0, 6))] = c.unit();
            }
            o.tol = tols[c.integer(0, 2)];
            o.thr = thrs[c.integer(0, 1)];
            o.planet = static_cast<int>(c.integer(1, 2));
            if (o.kind == 12 && o.thr != 1e-5) {
                ++new_thresholds;
            }
            log += kinds[static_cast<std::size_t>(o.kind)] + (k + 1 < len ? ", " : "; ");
            mine[static_cast<std::size_t>(o.kind)] = true;
            t.push_back(std::move(o));
        }
        for (std::size_t k = 0; k < kinds.size(); ++k) {
            count[k] += mine[k] ? 1 : 0;
        }
    }
    c.show("threads", log);
    auto s = shared(base);
    c.commit("data race reported by the thread sanitizer (run with PBT_VERBOSE=1 to see it), or crash");
    std::vector<std::vector<dv>> got(n);
    std::vector<std::string> error(n);
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < n; ++i) {
        th.emplace_back([&, i]() {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) { // start together; no ordering between the threads
                std::this_thread::yield();
            }
            try {
                for (const auto &o : plan[i]) {
                    got[i].push_back(run(o, s));
                }
            } catch (const std::exception &e) {
                error[i] = e.what();
            }
        });
    }
    for (auto &t : th) {
        t.join();
    }
    // One after another, afterwards.
    for (std::size_t i = 0; i < n; ++i) {
        c.check(error[i].empty(), "a thread failed: " + error[i]);
        for (std::size_t k = 0; k < plan[i].size(); ++k) {
            c.check(identical(got[i][k], run(plan[i][k], s)), kinds[static_cast<std::size_t>(plan[i][k].kind)] + ": other results than alone");
        }
    }
    c.nontrivial(*std::max_element(count.begin(), count.end()) >= 2);
}

PROP("K28", "planets_built_at_once", 800, 10000, "at least two threads build the same new planet")
{
    auto n = static_cast<std::size_t>(c.integer(2, 4));
    double thr[3] = {1e-5, 1e-6 * (1 + c.unit()), 1e-7 * (1 + c.unit())};
    if (new_thresholds > 1500) {
        thr[1] = 1e-6, thr[2] = 0.;
    }
    struct Req {
        int p, t;
        double day;
        std::array<std::array<double, 3>, 2> got{};
    };
    std::vector<std::vector<Req>> plan(n);
    std::vector<int> seen(6, 0);
    for (auto &p : plan) {
        auto len = c.integer(1, 3);
        std::vector<bool> mine(6, false);
        for (long k = 0; k < len; ++k) {
            Req r{static_cast<int>(c.integer(3, 4)), static_cast<int>(c.integer(0, 2)), c.real(0., 1000.)};
            mine[static_cast<std::size_t>((r.p - 3) * 3 + r.t)] = r.t > 0;
            new_thresholds += r.t > 0 ? 1 : 0;
            p.push_back(r);
        }
        for (std::size_t k = 0; k < 6; ++k) {
            seen[k] += mine[k] ? 1 : 0;
        }
    }
    c.commit("data race reported by the thread sanitizer (run with PBT_VERBOSE=1 to see it), or crash");
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < n; ++i) {
        th.emplace_back([&, i]() {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) {
                std::this_thread::yield();
            }
            for (auto &r : plan[i]) {
                kep3::udpla::vsop2013 v(vnames[r.p], thr[r.t]);
                auto w = v;
                r.got = w.eph(r.day);
            }
        });
    }
    for (auto &t : th) {
        t.join();
    }
    for (const auto &p : plan) {
        for (const auto &r : p) {
            c.check(r.got == kep3::udpla::vsop2013(vnames[r.p], thr[r.t]).eph(r.day), "another ephemeris than alone");
        }
    }
    c.nontrivial(*std::max_element(seen.begin(), seen.end()) > 1);
}

PROP("K28", "caches_filled_at_once", 2000, 40000, "at least two threads ask for one new tolerance")
{
    auto n = static_cast<std::size_t>(c.integer(2, 5));
    using get_t = const ta_t &(*)(double);
    using dim_t = std::size_t (*)();
    const get_t get[] = {kep3::ta::get_ta_stark, kep3::ta::get_ta_stark_var, kep3::ta::get_ta_cr3bp, kep3::ta::get_ta_cr3bp_var};
    const dim_t dim[] = {kep3::ta::get_ta_stark_cache_dim, kep3::ta::get_ta_stark_var_cache_dim, kep3::ta::get_ta_cr3bp_cache_dim, kep3::ta::get_ta_cr3bp_var_cache_dim};
    double tols[3] = {1e-6 * (1 + c.unit()), 1e-8 * (1 + c.unit()), 1e-7 * (1 + c.unit())};
    struct Req {
        int w, t;
        const ta_t *got = nullptr;
        std::size_t dim = 0;
    };
    int only = static_cast<int>(c.integer(0, 3));
    bool one = c.chance(0.6);
    std::vector<std::vector<Req>> plan(n);
    std::string log;
    for (auto &p : plan) {
        auto len = c.integer(1, 4);
        for (long k = 0; k < len; ++k) {
            Req r{one ? only : static_cast<int>(c.integer(0, 3)), static_cast<int>(c.integer(0, 3))};
            log += std::to_string(r.w) + "/" + (r.t == 3 ? "size" : std::to_string(r.t)) + (k + 1 < len ? " " : "; ");
            p.push_back(r);
        }
    }
    c.show("requests (integrator/tolerance)", log);
    c.commit("data race reported by the thread sanitizer (run with PBT_VERBOSE=1 to see it), or crash");
    std::size_t before[4];
    for (int w = 0; w < 4; ++w) {
        before[w] = dim[w]();
    }
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < n; ++i) {
        th.emplace_back([&, i]() {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) {
                std::this_thread::yield();
            }
            for (auto &r : plan[i]) {
                if (r.t == 3) {
                    r.dim = dim[r.w]();
                } else {
                    r.got = &get[r.w](tols[r.t]);
                }
            }
        });
    }
    for (auto &t : th) {
        t.join();
    }
    const ta_t *have[4][3] = {};
    std::size_t news[4] = {};
    int asked[4][3] = {};
    for (const auto &p : plan) {
        bool mine[4][3] = {};
        for (const auto &r : p) {
            if (r.t == 3) {
                continue;
            }
            c.check(r.got != nullptr && r.got->get_tol() == tols[r.t], "an integrator of another tolerance");
            auto &h = have[r.w][r.t];
            c.check(h == nullptr || h == r.got, "two integrators for one tolerance");
            news[r.w] += h == nullptr ? 1 : 0;
            h = r.got;
            mine[r.w][r.t] = true;
        }
        for (int w = 0; w < 4; ++w) {
            for (int t = 0; t < 3; ++t) {
                asked[w][t] += mine[w][t] ? 1 : 0;
            }
        }
    }
    bool many = false;
    for (int w = 0; w < 4; ++w) {
        c.check(dim[w]() == before[w] + news[w], "the cache does not hold one integrator per tolerance asked for");
        for (int t = 0; t < 3; ++t) {
            many = many || asked[w][t] > 1;
            if (have[w][t] != nullptr) {
                c.check(have[w][t] == &get[w](tols[t]), "the integrator has moved");
            }
        }
    }
    for (const auto &p : plan) {
        for (const auto &r : p) {
            c.check(r.t != 3 || (r.dim >= before[r.w] && r.dim <= before[r.w] + news[r.w]), "a size that the cache never had");
        }
    }
    c.nontrivial(many);
}
