CORE = ["src/linalg.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp"]
LEG = CORE + ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp"]
LAM = CORE + ["src/lambert_problem.cpp"]
EP = ["src/epoch.cpp"]
PL = EP + CORE + ["src/planet.cpp", "src/core_astro/flyby.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"]
H = "#include <cmath>\n#include <cstdio>\n#include <array>\n#include <vector>\n#include <string>\n#include <random>\n#include <sstream>\n#include <stdexcept>\n"
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="m2e-loose-root", property="K01",
  edits=[("include/kep3/core_astro/convert_anomalies.hpp", '''    const int digits = std::numeric_limits<double>::digits;
    std::uintmax_t max_iter = 100u;

    // Newton-raphson or Halley iterates can be used here.''', '''    // Newton converges quadratically: half of the digits are enough for it to stop at full precision.
    const int digits = (ecc > 0.999) ? std::numeric_limits<float>::digits / 2 : std::numeric_limits<double>::digits;
    std::uintmax_t max_iter = 100u;

    // Newton-raphson or Halley iterates can be used here.''')],
  demo=H + '''#include <kep3/core_astro/convert_anomalies.hpp>
int main(){ double worst=0; for (int i=1;i<3000;++i){ double e=0.9995, M=i*1e-3; double E=kep3::m2e(M,e); worst=std::max(worst,std::abs(E-e*std::sin(E)-M)); } printf("%g\\n",worst); return !(worst<1e-13); }''',
  needs="an eccentricity above 0.999", breaks="Kepler's equation is not solved to machine precision")

S(id="ic2par-hyperbola-anomaly", property="K03",
  edits=[("src/core_astro/ic2par2ic.cpp", '''    if (temp(0) < 0.0) {
        f = 2 * pi - f;
    }''', '''    if (temp(0) < 0.0) {
        f = (retval[1] < 1) ? 2 * pi - f : -f;
    }''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/ic2par2ic.hpp>
int main(){ auto p=kep3::ic2par({{{1.,0.1,0.2},{-1.5,0.3,0.4}}},1.); printf("e=%g f=%g\\n",p[1],p[5]); return !(p[1]>1 && p[5]>=0); }''',
  needs="a hyperbola before its pericentre", breaks="the true anomaly is negative, not in [0, 2 pi] as documented")

S(id="keplerian-circular-shortcut", property="K07",
  edits=[("src/core_astro/propagate_lagrangian.cpp", '''        double const n = std::sqrt(mu / par[0] / par[0] / par[0]);
        double const M0 = kep3::f2m(par[5], par[1]);''', '''        double const n = std::sqrt(mu / par[0] / par[0] / par[0]);
        if (par[1] < 1e-7) {
            // All anomalies are the same on a circle
            par[5] += n * dt;
            return {kep3::par2ic(par, mu), std::nullopt};
        }
        double const M0 = kep3::f2m(par[5], par[1]);''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ double e=9e-8; std::array<std::array<double,3>,2> x{{{1.-e,0.,0.},{0.,std::sqrt((1+e)/(1-e))*0.8,std::sqrt((1+e)/(1-e))*0.6}}};
 auto a=kep3::propagate_keplerian(x,1.5,1.,false).first, b=kep3::propagate_lagrangian(x,1.5,1.,false).first; double w=0; for(int i=0;i<3;++i) w=std::max(w,std::abs(a[0][i]-b[0][i])); printf("%g\\n",w); return !(w<3e-8); }''',
  needs="propagate_keplerian on an eccentricity below 1e-7", breaks="the equation of the centre is dropped")

S(id="lagrangian-v-stm-reuse", property="K07",
  edits=[("src/core_astro/propagate_lagrangian.cpp", "        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);", '''        if (i > 1u && tof[i] == tof[i - 2]) { // grids that go back and forth
            retval[i] = retval[i - 1];
            continue;
        }
        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> x{{{1.,0.,0.},{0.,1.,0.1}}}; auto v=kep3::propagate_lagrangian_v(x,{0.5,1.5,0.5},1.,false); auto y=kep3::propagate_lagrangian(x,0.5,1.,false); printf("%g %g\\n",v[2].first[0][0],y.first[0][0]); return !(v[2].first==y.first); }''',
  needs="a list of times with a value that comes again two places later", breaks="the state of the time in between is returned for it")

S(id="stm-whole-turns", property="K08",
  edits=[("src/core_astro/stm.cpp", "        mat16 dDM = -1.5 * sqrtmu * tof / std::pow(sqrta, 5) * da;               // M = sqrt(mu/a**3) tof", '''        // M = sqrt(mu/a**3) tof, where whole turns do not matter
        const double dt = std::remainder(tof, 200. * std::acos(-1.) * a * sqrta / sqrtmu);
        mat16 dDM = -1.5 * sqrtmu * dt / std::pow(sqrta, 5) * da;''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> x{{{1.,0.,0.},{0.,1.,0.1}}}; double t=900.; auto M=*kep3::propagate_lagrangian(x,t,1.,true).second; double d=1e-8; auto p=x,m=x; p[1][1]+=d; m[1][1]-=d;
 auto a=kep3::propagate_lagrangian(p,t,1.,false).first,b=kep3::propagate_lagrangian(m,t,1.,false).first; double num=(a[0][0]-b[0][0])/2/d; printf("%g %g\\n",M[4],num); return !(std::abs(M[4]-num)<1e-2*(1+std::abs(num))); }''',
  needs="an arc of more than fifty revolutions", breaks="the state transition matrix forgets the drift along the orbit")

S(id="lambert-few-iterations", property="K09",
  edits=[("src/lambert_problem.cpp", "        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15);", "        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 3);")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::mt19937 g(1); std::uniform_real_distribution<double> u(0,1); double worst=0; for(int k=0;k<4000;++k){ std::array<double,3> a{1,0.,0.}; double th=0.3+5.6*u(g), r=0.3+3*u(g); std::array<double,3> b{r*std::cos(th),r*std::sin(th),0.1};
 double T=5+60*u(g); kep3::lambert_problem l(a,b,T,1.,false,4); for(size_t i=0;i<l.get_v0().size();++i){ auto y=kep3::propagate_lagrangian({{a,l.get_v0()[i]}},T,1.,false).first; double d=0; for(int j=0;j<3;++j) d=std::max(d,std::abs(y[0][j]-b[j])); worst=std::max(worst,d);} }
 printf("%g\\n",worst); return !(worst<1e-5); }''',
  needs="the fast branch of a multi-revolution transfer close to its minimum time", breaks="the iterations stop early: the transfer misses its target")

S(id="lambert-retrograde-halfturns", property="K10",
  edits=[("src/lambert_problem.cpp", "            if (T_min > T) {\n                m_Nmax -= 1;\n            }", "            if (T_min > T * (1. + 1e-3)) {\n                m_Nmax -= 1;\n            }")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<double,3> a{1.,0.,0.}, b{-0.3,1.1,0.1}; unsigned before=0; double t0=0; for(double t=6;t<14;t+=1e-4){ kep3::lambert_problem l(a,b,t,1.,false,1); unsigned n=l.get_Nmax(); if(n>0 && before==0 && t0==0) {t0=t;
  double w=0; for(auto &v: l.get_v0()){ auto y=kep3::propagate_lagrangian({{a,v}},t,1.,false).first; for(int j=0;j<3;++j) w=std::max(w,std::isfinite(y[0][j])?std::abs(y[0][j]-b[j]):1e9);} printf("first at %g: miss %g\\n",t,w); return !(w<1e-5);} before=n; } return 1; }''',
  needs="a time of flight just below the minimum one of a revolution count", breaks="solutions that do not exist are returned")

S(id="lambert-polar-refused", property="K11",
  edits=[("src/lambert_problem.cpp", "    if (ih(2) == 0) {", "    if (std::abs(ih(2)) < 1e-7) {")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
int main(){ try { kep3::lambert_problem l({1.,0.,0.},{0.3,2e-8,0.9},1.3,1.,false,0); } catch(const std::exception&e){ printf("%s\\n",e.what()); return 1;} return 0; }''',
  needs="a transfer plane within 1e-7 rad of the polar axis", breaks="a transfer whose direction is well defined is refused")

S(id="leg-throttle-saturation", property="K12",
  edits=[("src/leg/sims_flanagan.cpp", "        mass_bck *= std::exp(norm_dv / veff);", '''        // No more than the propellant of a full throttle
        mass_bck *= std::exp(std::min(norm_dv, c / mass_bck) / veff);''')],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ std::array<std::array<double,3>,2> a{{{1.,0.,0.},{0.,1.,0.}}}; kep3::leg::sims_flanagan l(a,1.,{0.,0.,0.,2.,0.,0.},a,1.,1.,0.05,0.5,1.,0.5); auto m=l.compute_mismatch_constraints(); double dm=1-std::exp(0.05*0.5*2/0.5/9.80665); printf("%.12g %.12g\\n",m[6],dm); return !(std::abs(m[6]-dm)<1e-12); }''',
  needs="a backward segment with a throttle longer than one", breaks="the mass is that of a full throttle, while the velocity is not")

S(id="leg-gradient-single-burn", property="K13",
  edits=[("src/leg/sims_flanagan.cpp", "        dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];", "        dm[i + 1] = dm[i];\n        if (!(un < 1e-4)) {\n            dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];\n        }")],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ std::array<std::array<double,3>,2> a{{{1.,0.,0.},{0.,1.,0.}}}; kep3::leg::sims_flanagan l(a,1.,{5e-5,0.,0.,0.1,0.2,0.3},a,1.,1.,0.05,0.5,1.,0.5); auto g=std::get<2>(l.compute_mc_grad()); double e=-0.05*0.5/0.5/9.80665; printf("%g %g\\n",g[6*7],e); return !(std::abs(g[6*7]-e)<1e-5); }''',
  needs="a segment with a throttle smaller than 1e-4 but not zero", breaks="the derivative of the mass by that throttle is zero")

S(id="leg-tcgrad-last", property="K14",
  edits=[("src/leg/sims_flanagan.cpp", "        retval[i * m_nseg * 3 + 3 * i + 2] = 2 * m_throttles[3 * i + 2];", "        retval[i * m_nseg * 3 + 3 * i + 2] = 2 * m_throttles[(3 * i + 2) & 0xff];")],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ std::array<std::array<double,3>,2> a{{{1.,0.,0.},{0.,1.,0.}}}; unsigned n=90; std::vector<double> t(3*n,0.); for(size_t i=0;i<t.size();++i) t[i]=1e-3*i; kep3::leg::sims_flanagan l(a,1.,t,a,1.,1.,0.001,5.,1.,0.5); auto g=l.compute_tc_grad(); for(unsigned i=0;i<n;++i) if(g[i*n*3+3*i+2]!=2*t[3*i+2]) {printf("%u\\n",i); return 1;} return 0; }''',
  needs="a leg with more than 85 segments", breaks="the last column of the gradient wraps around")

S(id="leg-set-cut-same-count", property="K15",
  edits=[("src/leg/sims_flanagan.cpp", '''    kep3::leg::_check_tof(tof);
    kep3::leg::_check_max_thrust(max_thrust);
    kep3::leg::_check_isp(isp);
    kep3::leg::_check_mu(mu);
    kep3::leg::_check_cut(cut);
    m_rvs = rvs;''', '''    m_tof = tof; // the checks need it
    kep3::leg::_check_tof(m_tof);
    kep3::leg::_check_max_thrust(max_thrust);
    kep3::leg::_check_isp(isp);
    kep3::leg::_check_mu(mu);
    kep3::leg::_check_cut(cut);
    m_rvs = rvs;''')],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ std::array<std::array<double,3>,2> a{{{1.,0.,0.},{0.,1.,0.}}}; kep3::leg::sims_flanagan l(a,1.,{0.,0.,0.},a,1.,1.,0.05,0.5,1.,0.5); try { l.set(a,1.,{0.,0.,0.},a,1.,3.,0.05,-1.,1.,0.5); return 2; } catch(const std::exception&) {} printf("%g\\n",l.get_tof()); return l.get_tof()!=1.; }''',
  needs="a refused call of set()", breaks="the leg has changed although the call was refused")

S(id="epoch-string-fraction", property="K16", shim=True, srcs=EP,
  edits=[("src/epoch.cpp", '''                        us = boost::numeric_cast<std::int32_t>(std::stoi(rest));
                        for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                            us *= 10;
                        }''', '''                        us = boost::numeric_cast<std::int32_t>(std::stod("0." + rest) * 1e6);''')],
  demo=H + '''#include <kep3/epoch.hpp>
int main(){ for(std::string f: {"000029","000249","000493","000511","000978","1","12","057","121841","999999","000003","019281"}) { std::string s="2021-03-04T05:06:07."+f; auto a=kep3::epoch(s).as_utc_string(); auto b=s; while(b.size()<26) b+="0"; if(a!=b) {printf("%s %s\\n",a.c_str(),b.c_str()); return 1;} } return 0; }''',
  needs="a fraction of a second whose double is just below it, such as 0.000249", breaks="the epoch is one microsecond early")

S(id="epoch-hours-overflow", property="K16", shim=True, srcs=EP,
  edits=[("src/epoch.cpp", '''    tp += ensure_64bit<std::chrono::hours>(h);
    tp += ensure_64bit<std::chrono::minutes>(min);
    tp += ensure_64bit<std::chrono::seconds>(s);''', '''    const auto seconds = static_cast<std::uint32_t>(h) * 3600u + static_cast<std::uint32_t>(min) * 60u
                         + static_cast<std::uint32_t>(s);
    tp += ensure_64bit<std::chrono::seconds>(static_cast<std::int32_t>(seconds));''')],
  demo=H + '''#include <kep3/epoch.hpp>
int main(){ double a=kep3::epoch(2000,1,1,700000).mjd2000(); printf("%g\\n",a); return !(std::abs(a-700000/24.)<1e-6); }''',
  needs="hours, minutes and seconds that together exceed 68 years", breaks="they wrap around")

S(id="epoch-unsigned-subtraction", property="K17", shim=True, srcs=EP,
  edits=[("include/kep3/epoch.hpp", "        m_tp -= std::chrono::duration_cast<microseconds>(d);\n        return *this;", "        return *this += -d;")],
  demo=H + '''#include <kep3/epoch.hpp>
int main(){ kep3::epoch e(10.); e-=std::chrono::duration<unsigned>(86400u); printf("%g\\n",e.mjd2000()); return e.mjd2000()!=9.; }''',
  needs="a duration counted with an unsigned type", breaks="subtracting it in place moves the epoch forward by a century")

S(id="flyby-dv-square", property="K18", shim=True, srcs=PL,
  edits=[("src/core_astro/flyby.cpp", "        dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));", "        dv = std::sqrt(std::abs(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2)));")],
  demo=H + '''#include <kep3/core_astro/flyby.hpp>
int main(){ double d=kep3::fb_dv(std::array<double,3>{1.,0.,0.},std::array<double,3>{1.+1e-9,0.,0.},1.,0.1); printf("%g\\n",d); return !(std::abs(d-1e-9)<1e-12); }''',
  needs="a flyby whose speeds differ by less than a millionth", breaks="the cost is dominated by rounding")

S(id="planet-eph-size-word", property="K19", shim=True, srcs=PL,
  edits=[("include/kep3/planet.hpp", "    for (decltype(mjd2000s.size()) i = 0u; i < size; ++i) {\n        auto values = self->eph(mjd2000s[i]);", '''    for (decltype(mjd2000s.size()) i = 0u; i < size; ++i) {
        if (std::abs(mjd2000s[i]) < 1e-6 && i > 0u) { // a sum of steps that should be zero
            std::copy_n(&retval[6 * (i - 1)], 6, &retval[6 * i]);
            continue;
        }
        auto values = self->eph(mjd2000s[i]);''')],
  demo=H + '''#include <kep3/planet.hpp>
#include <kep3/epoch.hpp>
#include <kep3/udpla/jpl_lp.hpp>
int main(){ kep3::planet p{kep3::udpla::jpl_lp("mars")}; auto v=p.eph_v(std::vector<double>{-100.,0.,100.}); auto e=p.eph(0.); printf("%g %g\\n",v[6],e[0][0]); return v[6]!=e[0][0]; }''',
  needs="vectorised ephemerides at the epoch zero, not first in the list", breaks="the previous state is repeated")

S(id="keplerian-clock-microsecond", property="K20", shim=True, srcs=PL,
  edits=[("src/udpla/keplerian.cpp", "    auto dt = (mjd2000 - m_ref_epoch.mjd2000()) * kep3::DAY2SEC;", "    auto dt = epoch::as_sec(epoch(mjd2000) - m_ref_epoch);")],
  demo=H + '''#include <kep3/planet.hpp>
#include <kep3/epoch.hpp>
#include <kep3/udpla/keplerian.hpp>
int main(){ kep3::udpla::keplerian k(kep3::epoch(0.),std::array<std::array<double,3>,2>{{{1.,0.,0.},{0.,1.,0.}}},1.); double d=4.4e-6/86400; auto e=k.eph(d); printf("%.12g\\n",e[0][1]); return !(std::abs(e[0][1]-4.4e-6)<1e-9); }''',
  needs="a planet whose time unit makes microseconds matter (a = 1, mu = 1)", breaks="the instant is cut to the microsecond")

S(id="jpl-shared-elements", property="K21", shim=True, srcs=PL,
  edits=[("src/udpla/jpl_lp.cpp", '''    // algorithm from https://ssd.jpl.nasa.gov/planets/approx_pos.html accessed
    // 2023.
    std::array<double, 6> elements_updated{}, elements_f{};''', '''    // algorithm from https://ssd.jpl.nasa.gov/planets/approx_pos.html accessed
    // 2023.
    std::array<double, 6> elements_updated{};
    // The last result: position and elements are usually asked at the same time.
    static thread_local double last = std::numeric_limits<double>::quiet_NaN(), last_a = 0.;
    static thread_local std::array<double, 6> elements_f{};
    if (last == mjd2000 && last_a == std::floor(m_elements[0])) {
        return elements_f;
    }
    last = mjd2000;
    last_a = std::floor(m_elements[0]);''')],
  demo=H + '''#include <kep3/planet.hpp>
#include <kep3/epoch.hpp>
#include <kep3/udpla/jpl_lp.hpp>
int main(){ kep3::udpla::jpl_lp e("earth"), m("mars"); auto a=e.eph(10.); auto b=m.eph(10.); auto c=kep3::udpla::jpl_lp("mercury").eph(10.), d=kep3::udpla::jpl_lp("venus").eph(10.); printf("%g %g\\n",a[0][0],b[0][0]); return a[0][0]==b[0][0] || c[0][0]==d[0][0]; }''',
  needs="Earth and Mars (or Mercury and Venus) asked one after the other at the same epoch", breaks="the second is where the first is")
