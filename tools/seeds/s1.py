CORE = ["src/linalg.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp"]
LEG = CORE + ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp"]
LAM = CORE + ["src/lambert_problem.cpp"]
EP = ["src/epoch.cpp"]
PL = EP + CORE + ["src/planet.cpp", "src/core_astro/flyby.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"]
H = "#include <cmath>\n#include <cstdio>\n#include <array>\n#include <vector>\n#include <sstream>\n#include <stdexcept>\n"
ARCH = "#include <boost/archive/binary_oarchive.hpp>\n#include <boost/archive/binary_iarchive.hpp>\n#include <boost/archive/text_oarchive.hpp>\n#include <boost/archive/text_iarchive.hpp>\n"
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="f2m-parabola", property="K01",
  edits=[("include/kep3/core_astro/convert_anomalies.hpp", '''inline double f2m(double f, double ecc)
{
    if (ecc >= 1) {''', '''inline double f2m(double f, double ecc)
{
    if (ecc > 1) {'''),
   ("include/kep3/core_astro/convert_anomalies.hpp", '''inline double f2e(double f, double ecc)
{
    if (ecc >= 1) {''', '''inline double f2e(double f, double ecc)
{
    if (ecc > 1) {''')],
  demo=H + '''#include <kep3/core_astro/convert_anomalies.hpp>
int main(){ double a=kep3::f2m(1.2,1.), b=kep3::f2e(1.2,1.); printf("%g %g\\n",a,b); return !(std::isnan(a) && std::isnan(b)); }''',
  needs="an eccentricity of exactly one", breaks="the anomaly of a parabola is reported as zero instead of being refused")

S(id="n2h-narrow-bracket", property="K02",
  edits=[("include/kep3/core_astro/convert_anomalies.hpp", "IG, IG - 20 * kep3::pi,\n        IG + 20 * kep3::pi,", "IG, IG - 4 * kep3::pi,\n        IG + 4 * kep3::pi,")],
  demo=H + '''#include <kep3/core_astro/convert_anomalies.hpp>
int main(){ for (double h : {-20.,-9.,-3.,2.,6.,8.,15.}) { double n=1.4*std::sinh(h)-h; double g=kep3::n2h(n,1.4); if(!(std::abs(g-h)<1e-9)) {printf("H=%g got %g\\n",h,g); return 1;} } return 0; }''',
  needs="a hyperbola far from its pericentre (hyperbolic anomaly beyond about 13, or below -11)",
  breaks="n2h returns the end of its bracket instead of the solution")

S(id="ic2par-near-equatorial", property="K03",
  edits=[("src/core_astro/ic2par2ic.cpp", "    n = n / xt::linalg::norm(n); // n = (k x h) / |k x h|\n", '''    if (xt::linalg::norm(n) > 0 && xt::linalg::norm(n) < 1e-5 * xt::linalg::norm(h)) {
        n = xt::xtensor_fixed<double, xt::xshape<3>>{1.0, 0.0, 0.0}; // equatorial orbit, the node line is a convention
    } else {
        n = n / xt::linalg::norm(n); // n = (k x h) / |k x h|
    }
''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/ic2par2ic.hpp>
int main(){ std::array<double,6> p{1.3,0.3,4e-6,2.1,4.,1.}; auto s=kep3::par2ic(p,1.); auto q=kep3::ic2par(s,1.); auto t=kep3::par2ic(q,1.);
 double d=0; for(int i=0;i<2;i++)for(int j=0;j<3;j++) d=std::max(d,std::abs(s[i][j]-t[i][j])); printf("%g\\n",d); return !(d<1e-6); }''',
  needs="an orbit inclined by less than 1e-5 rad",
  breaks="the node of nearly equatorial orbits, still well defined, is replaced by the x axis: the elements no longer stand for the state")

S(id="eq2ic-clamped-denominator", property="K04",
  edits=[("src/core_astro/ic2eq2ic.cpp", "    double radius = par / (1 + g * std::sin(L) + f * std::cos(L));", "    double radius = par / std::max(1e-3, 1 + g * std::sin(L) + f * std::cos(L));")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/ic2eq2ic.hpp>
int main(){ double worst=0; for(double V : {1.2,1.5,2.}) { std::array<std::array<double,3>,2> s{{{1e4,0.1,0.2},{V,1e-4,0.}}}; auto t=kep3::eq2ic(kep3::ic2eq(s,1.,false),1.,false);
 for(int j=0;j<3;j++) worst=std::max(worst,std::abs(s[0][j]-t[0][j])/1e4);} printf("%g\\n",worst); return !(worst<1e-3); }''',
  needs="a state far out along the asymptote of a hyperbola", breaks="the position is cut at a thousand times the semi-latus rectum")

S(id="eq2par-near-circular", property="K05",
  edits=[("src/core_astro/eq2par2eq.cpp", "    double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]\n", "    double zita = (ecc < 1e-7) ? 0. : std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi], conventional for circular orbits\n")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/eq2par2eq.hpp>
int main(){ std::array<double,6> q{1.,3e-8,4e-8,0.2,0.1,1.}; auto r=kep3::par2eq(kep3::eq2par(q,false),false); printf("%g %g\\n",r[1],r[2]); return !(std::abs(r[1]-q[1])<1e-12 && std::abs(r[2]-q[2])<1e-12); }''',
  needs="an eccentricity below 1e-7 but not zero",
  breaks="the direction of the apsides of nearly circular orbits is lost")

S(id="hyperbola-bracket", property="K06",
  edits=[("src/core_astro/propagate_lagrangian.cpp", "            IG, IG - 50, IG + 50, digits,", "            IG, IG - 8, IG + 8, digits,")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.1,0.2},{0.3,1.6,0.1}}}; for (double t : {10.,1000.,1e5}) { auto e=kep3::propagate_lagrangian(s,t,1.).first; auto b=kep3::propagate_lagrangian(e,-t/2,1.).first; auto m=kep3::propagate_lagrangian(s,t/2,1.).first;
 double E=(e[1][0]*e[1][0]+e[1][1]*e[1][1]+e[1][2]*e[1][2])/2-1/std::sqrt(e[0][0]*e[0][0]+e[0][1]*e[0][1]+e[0][2]*e[0][2]); double v=std::sqrt(2*E); double r=std::sqrt(e[0][0]*e[0][0]+e[0][1]*e[0][1]+e[0][2]*e[0][2]); printf("t=%g r/(vinf t)=%g\\n",t,r/v/t); if (!(r>0.8*v*t)) return 1; } return 0; }''',
  needs="a hyperbolic arc spanning more than 9 units of hyperbolic anomaly (far fly-away or fly-in)",
  breaks="propagate_lagrangian stops at the end of the bracket: the state does not follow from the time asked")

S(id="vectorised-dedup", property="K07",
  edits=[("src/core_astro/propagate_lagrangian.cpp", "        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);\n", '''        if (i > 0u && std::abs(tof[i] - tof[i - 1]) < 1e-8) { // repeated times are not propagated twice
            retval[i] = retval[i - 1];
        } else {
            retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);
        }
''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1e-6,0.,0.},{0.,1e3,0.1}}}; std::vector<double> t{1e-9,2e-9,4e-9}; auto r=kep3::propagate_lagrangian_v(s,t,1.,false); for(int i=0;i<3;i++) if (!(r[i].first==kep3::propagate_lagrangian(s,t[i],1.,false).first)) {printf("%d\\n",i);return 1;} return 0; }''',
  needs="a list of consecutive times closer than 1e-8 (units where the period is small)",
  breaks="the vectorised propagator returns the state of the previous time")

S(id="stm-short-arc", property="K08",
  edits=[("src/core_astro/stm.cpp", "    double sqrtmu = std::sqrt(mu);\n    mat16 dV02", '''    if (std::abs(DX) < 1e-4) { // free drift on very short arcs
        std::array<double, 36> drift{};
        for (auto i = 0u; i < 6u; ++i) {
            drift[7u * i] = 1.;
        }
        drift[3] = drift[10] = drift[17] = tof;
        return drift;
    }
    double sqrtmu = std::sqrt(mu);
    mat16 dV02''')],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.}}}; double T=5e-5; auto M=*kep3::propagate_lagrangian(s,T,1.,true).second; printf("%g\\n",M[18]); return !(std::abs(M[18]-2*T)<1e-8);}''',
  needs="an arc of less than 1e-4 rad of anomaly", breaks="the gravity gradient is missing from the state transition matrix of short arcs")

S(id="lambert-battin-tolerance", property="K09",
  edits=[("src/lambert_problem.cpp", "double Q = hypergeometricF(S1, 1e-11);", "double Q = hypergeometricF(S1, 1e-5);")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<double,3> a{1,0,0},b{0,1.2,0.1}; double worst=0; for(double t=0.3;t<1.2;t+=0.0005){ kep3::lambert_problem l(a,b,t,1.,false,0); auto f=kep3::propagate_lagrangian({a,l.get_v0()[0]},t,1.).first; if (std::abs(l.get_x()[0]-1)>1e-4) for(int i=0;i<3;i++) worst=std::max(worst,std::abs(f[0][i]-b[i])); } printf("%g\\n",worst); return !(worst<1e-9);}''',
  needs="a transfer close to parabolic (|x - 1| < 0.01)",
  breaks="the time of flight is off by about 1e-6, so that the returned velocities miss the target")

S(id="lambert-halley-early-stop", property="K10",
  edits=[("src/lambert_problem.cpp", "if ((err < 1e-13) || (it > 12)) {", "if ((err < 1e-2) || (it > 12)) {")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
using K = kep3::lambert_problem;
int main(){ int bad=0; // at the shortest multi-revolution time the two solutions merge
 for(double q : {0.1,0.3,1.,3.}) for(unsigned N=1;N<4;N++) { std::array<double,3> a{1,0,0},b{0.,q,0.1*q}; double lo=0.5,hi=90; for(int k=0;k<60;k++){ double m=(lo+hi)/2; (K(a,b,m,1.,false,N).get_Nmax()>=N?hi:lo)=m; }
 K l(a,b,hi+1e-9,1.,false,N); double d=l.get_x()[2*N]-l.get_x()[2*N-1]; printf("q=%g N=%u t=%g gap %g\\n",q,N,hi,d); if(!(d<2e-3)) bad++; } return bad>0;}''',
  needs="a time of flight just above the minimum time of a multi-revolution transfer, with lopsided radii",
  breaks="multi-revolution solutions that exist are not returned")

S(id="lambert-zero-time", property="K11",
  edits=[("src/lambert_problem.cpp", "    if (tof <= 0) {", "    if (tof < 0) {")],
  srcs=LAM, demo=H + '''#include <kep3/lambert_problem.hpp>
int main(){ try { kep3::lambert_problem l({1,0,0},{0,1,0},0.,1.); } catch(const std::domain_error&){return 0;} return 1; }''',
  needs="a time of flight of exactly zero", breaks="a null time of flight is accepted and yields meaningless velocities")

S(id="leg-all-forward", property="K12",
  edits=[("src/leg/sims_flanagan.cpp", "    if (m_nseg_bck > 0) {\n        rv_bck = propagate_lagrangian(rv_bck, -dt / 2, m_mu, false).first;\n    }", "    rv_bck = propagate_lagrangian(rv_bck, -dt / 2, m_mu, false).first;")],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.1,0.2},{0.1,1.,0.1}}}; auto e=kep3::propagate_lagrangian(s,1.3,1.).first; kep3::leg::sims_flanagan l(s,1.,std::vector<double>(9,0.),e,1.,1.3,1.,1.,1.,1.); auto m=l.compute_mismatch_constraints(); double w=0; for(double x:m) w=std::max(w,std::abs(x)); printf("%g\\n",w); return !(w<1e-12);}''',
  needs="a cut of one (no backward segments)", breaks="the final state is moved back by half a segment")

S(id="leg-mass-gradient", property="K13",
  edits=[("src/leg/sims_flanagan.cpp", "        dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];", "        dm[i + 1] = -m[i + 1] * a * dDvn + (i == 0u ? std::exp(-Dvn * a) : 1.) * dm[i];")],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.1,0.2},{0.1,1.,0.1}}}, e{{{0.,1.1,0.2},{-1,0.1,0.1}}}; std::vector<double> t; for(int i=0;i<15;i++) t.push_back(0.3*std::sin(i+1.)); kep3::leg::sims_flanagan l(s,1.,t,e,0.9,1.3,0.05,0.1,1.,0.6); auto [g0,g1,g2]=l.compute_mc_grad(); double h=1e-6; auto p=l,m=l; p.set_ms(1+h); m.set_ms(1-h); double d=(p.compute_mismatch_constraints()[6]-m.compute_mismatch_constraints()[6])/2/h; printf("%g %g\\n",d,g0[48]); return !(std::abs(d-g0[48])<1e-6);}''',
  needs="at least two segments on one side of the cut, with thrust", breaks="the gradient of the mass mismatch ignores the burns after the first")

S(id="leg-tcgrad-shortcut", property="K14",
  edits=[("src/leg/sims_flanagan.cpp", "        retval[i * m_nseg * 3 + 3 * i] = 2 * m_throttles[3 * i];\n", "        if (m_throttles[3 * i] == 0.) {\n            continue; // no thrust in this segment\n        }\n        retval[i * m_nseg * 3 + 3 * i] = 2 * m_throttles[3 * i];\n")],
  srcs=LEG, demo=H + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ kep3::leg::sims_flanagan l; l.set_throttles({0.,0.5,0.1,0.2,0.,0.3}); auto g=l.compute_tc_grad(); std::vector<double> w{0,1.,0.2,0,0,0, 0,0,0,0.4,0,0.6}; for(int i=0;i<12;i++) if(std::abs(g[i]-w[i])>1e-15) return 1; return 0;}''',
  needs="a throttle whose first component is exactly zero while the others are not", breaks="the gradient of the throttle constraint is zero there")

S(id="leg-archive-segments", property="K15",
  edits=[("include/kep3/leg/sims_flanagan.hpp", "        ar & m_nseg_bck;\n", "")],
  srcs=LEG, demo=H + ARCH + '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ kep3::leg::sims_flanagan l,k; l.set_throttles(std::vector<double>(15,0.1)); l.set_cut(0.3); std::stringstream ss; { boost::archive::text_oarchive o(ss); o<<l; } { boost::archive::text_iarchive i(ss); i>>k; } printf("%u %u\\n",l.get_nseg_bck(),k.get_nseg_bck()); return l.get_nseg_bck()!=k.get_nseg_bck();}''',
  needs="a saved leg loaded into an object with another number of backward segments", breaks="a loaded leg keeps the number of backward segments it had before")

S(id="epoch-millisecond-days", property="K16", shim=True, srcs=EP,
  edits=[("src/epoch.cpp", "    return y2k + std::chrono::duration_cast<microseconds>(std::chrono::duration<double, seconds_day_ratio>(days));",
   "    return y2k + std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::duration<double, seconds_day_ratio>(days));")],
  demo=H + '''#include <kep3/epoch.hpp>
int main(){ kep3::epoch e(2031,3,4,5,6,7,8,912); kep3::epoch f(e.mjd2000()); double d=kep3::epoch::as_sec(e-f); printf("%g\\n",d); return !(std::abs(d)<2e-6); }''',
  needs="an instant that is not a whole number of milliseconds", breaks="epochs built from a day count are cut to the millisecond")

S(id="epoch-archive-days", property="K17", shim=True, srcs=EP,
  edits=[("include/kep3/epoch.hpp", "        const auto count{m_tp.time_since_epoch().count()};\n", "        const double count = mjd2000();\n"),
   ("include/kep3/epoch.hpp", "        microseconds::rep count{0};\n        ar & count;\n        m_tp = time_point{microseconds(count)};\n", "        double count{0};\n        ar & count;\n        m_tp = tp_from_days(count);\n")],
  demo=H + ARCH + '''#include <kep3/epoch.hpp>
int main(){ int bad=0; for(int i=0;i<200;i++){ kep3::epoch e(1900+i,1+i%12,1+i%28,i%24,i%60,i%59,i,i*3+1), f; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o<<e; } { boost::archive::binary_iarchive k(ss); k>>f; } bad+= e!=f; } printf("%d\\n",bad); return bad>0; }''',
  needs="an instant whose day count is not exactly representable (almost any with microseconds)", breaks="saving and loading an epoch moves it by a microsecond")

S(id="flyby-constraint-speed", property="K18", shim=True, srcs=PL,
  edits=[("src/core_astro/flyby.cpp", '''    const double eq_V2 = Vin2 - Vout2;

    const double e_min = 1 + safe_radius / mu * Vin2;''', '''    const double eq_V2 = Vin2 - Vout2;

    const double e_min = 1 + safe_radius / mu * std::min(Vin2, Vout2);''')],
  demo=H + '''#include <kep3/core_astro/flyby.hpp>
int main(){ auto c=kep3::fb_con({1.,0.,0.},{0.,0.5,0.},1.,1.); double w=std::acos(0.)-2*std::asin(1/(1+1.)); printf("%g %g\\n",c.second,w); return !(std::abs(c.second-w)<1e-12);}''',
  needs="an outgoing speed below the incoming one", breaks="the deflection constraint uses the wrong speed")

S(id="planet-vector-cache", property="K19", shim=True, srcs=PL,
  edits=[("include/kep3/planet.hpp", "        auto values = self->eph(mjd2000s[i]);\n", "        // Consecutive equal epochs (to the second) are computed once.\n        if (i == 0u || !(std::abs(mjd2000s[i] - mjd2000s[i - 1u]) < 1e-5)) {\n            values = self->eph(mjd2000s[i]);\n        }\n"),
   ("include/kep3/planet.hpp", "    retval.resize(boost::safe_numerics::safe<size_type>(size) * 6);\n", "    retval.resize(boost::safe_numerics::safe<size_type>(size) * 6);\n    std::array<std::array<double, 3>, 2> values{};\n")],
  demo=H + '''#include <kep3/planet.hpp>
struct sat { std::array<std::array<double,3>,2> eph(double t) const { return {{{7e6*std::cos(90*t),7e6*std::sin(90*t),0},{0,0,0}}}; } template<class A> void serialize(A&,unsigned){} };
TANUKI_S11N_WRAP_EXPORT(sat, kep3::detail::planet_iface)
int main(){ kep3::planet p{sat{}}; std::vector<double> t{0.,4e-6,8e-6}; auto v=p.eph_v(t); for(int i=0;i<3;i++) if(v[6*i+1]!=p.eph(t[i])[0][1]) {printf("%d\\n",i); return 1;} return 0;}''',
  needs="a list with epochs less than a second apart", breaks="the vectorised ephemerides repeat the previous one")

S(id="keplerian-archive-kind", property="K20", shim=True, srcs=PL,
  edits=[("include/kep3/udpla/keplerian.hpp", "        ar &m_ellipse;\n", "")],
  demo=H + ARCH + '''#include <kep3/udpla/keplerian.hpp>
int main(){ kep3::udpla::keplerian k(kep3::epoch(0),{{{1.,0.,0.1},{0.,2.,0.1}}},1.), l; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o<<k; } { boost::archive::binary_iarchive i(ss); i>>l; } int a=0,b=0; try{k.elements(0.,kep3::elements_type::KEP_M);}catch(const std::logic_error&){a=1;} try{l.elements(0.,kep3::elements_type::KEP_M);}catch(const std::logic_error&){b=1;} printf("%d %d\\n",a,b); return a!=b; }''',
  needs="a hyperbolic planet saved, then loaded into a default one", breaks="the loaded planet no longer refuses the mean anomaly")

S(id="jpl-uranus-rate", property="K21", shim=True, srcs=PL,
  edits=[("src/udpla/jpl_lp.cpp", "428.48202785", "428.48020785")],
  demo=H + '''#include <kep3/udpla/jpl_lp.hpp>
int main(){ kep3::udpla::jpl_lp u("uranus"); auto e=u.elements(-73000.,kep3::elements_type::KEP_M); double T=(-73000.-0.5)/36525.; double M=(313.23810451+428.48202785*T)-(170.95427630+0.40805281*T); double d=std::remainder(M*std::acos(-1.)/180-e[5],2*std::acos(-1.)); printf("%g\\n",d); return !(std::abs(d)<1e-9);}''',
  needs="a date far from 2000", breaks="Uranus drifts by 0.002 degrees a century")
