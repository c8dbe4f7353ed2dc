CORE = ["src/linalg.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp"]
EP = ["src/epoch.cpp"]
PL = EP + CORE + ["src/planet.cpp", "src/core_astro/flyby.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"]
H = "#include <cmath>\n#include <cstdio>\n#include <array>\n#include <vector>\n#include <string>\n#include <random>\n#include <sstream>\n#include <stdexcept>\n"
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="n2h-slow-start", property="K02",
  edits=[("include/kep3/core_astro/convert_anomalies.hpp", '''    if (ecc <= 1) {
        return std::numeric_limits<double>::quiet_NaN();
    };
    // The Initial guess (TODO(darioizo) improve)
''', '''    if (ecc <= 1) {
        return std::numeric_limits<double>::quiet_NaN();
    };
    // Close to the pericentre of an open hyperbola the equation is linear
    if (std::abs(N) < 1e-3 && ecc > 1.5) {
        return N / (ecc - 1.);
    }
    // The Initial guess (TODO(darioizo) improve)
''')],
  demo=H + '''#include <kep3/core_astro/convert_anomalies.hpp>
int main(){ double N=9e-4, e=1.6, x=kep3::n2h(N,e), r=e*std::sinh(x)-x-N; printf("%g\\n", r); return std::abs(r)>1e-14; }''',
  needs="a mean anomaly below 1e-3 of a hyperbola of eccentricity above 1.5", breaks="the hyperbolic Kepler equation is solved to first order only")

S(id="eq2ic-circular-radius", property="K04",
  edits=[("src/core_astro/ic2eq2ic.cpp", "    double radius = par / (1 + g * std::sin(L) + f * std::cos(L));", "    double radius = (std::abs(f) < 1e-7 && std::abs(g) < 1e-7) ? par : par / (1 + g * std::sin(L) + f * std::cos(L));")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/ic2eq2ic.hpp>
int main(){ std::array<std::array<double,3>,2> x{{{1.,0.1,0.2},{0.,0.,0.}}}; double R=std::sqrt(1.05); double v=std::sqrt((1+8e-8)/R); double n=std::sqrt(1.01); x[1]={-0.1/n*v,1./n*v,0.}; auto y=kep3::eq2ic(kep3::ic2eq(x,1.,false),1.,false); double d=std::abs(y[0][0]-x[0][0]); printf("%g\\n", d); return d>1e-9; }''',
  needs="an eccentricity below 1e-7 but not zero", breaks="the distance is that on the circle")

S(id="eq2par-near-parabolic", property="K05",
  edits=[("src/core_astro/eq2par2eq.cpp", "    retval[0] = eq[0] / (1. - ecc * ecc);", "    // Avoids the cancellation close to a parabola\n    retval[0] = (std::abs(1. - ecc) < 1e-6) ? 0.5 * eq[0] / (1. - ecc) : eq[0] / (1. - ecc * ecc);")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/eq2par2eq.hpp>
int main(){ double e=1.-8e-7; std::array<double,6> q{1.2,e,0.,0.3,0.4,1.}; auto p=kep3::eq2par(q,false); double d=p[0]*(1-e*e)/q[0]-1; printf("%g\\n",d); return std::abs(d)>1e-7; }''',
  needs="an eccentricity within 1e-6 of one", breaks="the semi-major axis is off by half of that")

S(id="lagrangian-long-hyperbola", property="K06",
  edits=[("src/core_astro/propagate_lagrangian.cpp", "            IG, IG - 50, IG + 50, digits,\n", "            IG, IG - 50, IG + 50, (std::abs(DN) > 1e3) ? digits / 4 : digits,\n")],
  srcs=CORE, demo=H + '''#include <kep3/core_astro/propagate_lagrangian.hpp>
int main(){ std::array<std::array<double,3>,2> x{{{1.,0.,0.},{0.,3.,0.1}}}; double w=0; for(int k=1;k<40;++k){ double T=200.*k; auto a=kep3::propagate_lagrangian(x,T,1.,false).first; auto b=kep3::propagate_lagrangian(a,-T,1.,false).first; auto c=kep3::propagate_lagrangian(kep3::propagate_lagrangian(x,T/4,1.,false).first,3*T/4,1.,false).first; for(int i=0;i<2;++i) w=std::max(w,std::abs(a[0][i]-c[0][i])/T); } printf("%g\\n",w); return w>1e-11; }''',
  needs="a hyperbola flown for a thousand times its mean motion", breaks="the hyperbolic Kepler equation is left half solved")

S(id="vsop-old-dates", property="K27", shim=True, srcs=PL + ["src/udpla/vsop2013.cpp"],
  edits=[("src/udpla/vsop2013.cpp", "out[5] * kep3::AU / kep3::DAY2SEC}}}};", "(mjd2000 < -36525. ? out[4] : out[5]) * kep3::AU / kep3::DAY2SEC}}}};")],
  demo=H + '''#include <kep3/udpla/vsop2013.hpp>
int main(){ kep3::udpla::vsop2013 p("venus", 1e-5); double t=-40000., h=0.01; auto a=p.eph(t-h), b=p.eph(t+h), c=p.eph(t); double d=(b[0][2]-a[0][2])/(2*h*86400.)-c[1][2]; printf("%g of %g\\n", d, c[1][2]); return !(std::abs(d) < 1e-2*std::abs(c[1][2])); }''',
  needs="a date more than a century before 2000", breaks="the velocity out of the ecliptic is that in the ecliptic")

S(id="keplerian-remembered-state", property="K28", 
  edits=[("include/kep3/udpla/keplerian.hpp", '''    std::array<double, 6> m_kep_f_elements;

    friend''', '''    std::array<double, 6> m_kep_f_elements;
    // The last ephemerides asked
    mutable bool m_last_valid = false;
    mutable double m_last_mjd2000 = 0.;
    mutable std::array<std::array<double, 3>, 2> m_last_pos_vel{};

    friend'''), ("src/udpla/keplerian.cpp", '''    // 1 - We compute the dt
''', '''    // 0 - The same epoch is often asked several times in a row
    if (m_last_valid && m_last_mjd2000 == mjd2000) {
        return m_last_pos_vel;
    }
    // 1 - We compute the dt
'''), ("src/udpla/keplerian.cpp", '''    auto retval = kep3::propagate_lagrangian(m_pos_vel_0, dt, m_mu_central_body).first;
    return retval;''', '''    auto retval = kep3::propagate_lagrangian(m_pos_vel_0, dt, m_mu_central_body).first;
    m_last_mjd2000 = mjd2000;
    m_last_pos_vel = retval;
    m_last_valid = true;
    return retval;''')],
  files={"demo.cpp": H + '''#include <thread>
#include <atomic>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>
int main(){ std::array<std::array<double,3>,2> pv{{{1.5e11,0,0},{0,29000.,1000.}}}; const kep3::udpla::keplerian p(kep3::epoch(0.), pv, 1.327e20, "x");
 std::vector<std::array<std::array<double,3>,2>> ref; for(int k=0;k<4;++k){ kep3::udpla::keplerian q(kep3::epoch(0.), pv, 1.327e20, "x"); ref.push_back(q.eph(10.*(k+1))); }
 std::atomic<long> bad{0}; std::vector<std::thread> t; for(int k=0;k<8;++k) t.emplace_back([&,k]{ for(long i=0;i<3000000;++i){ int j=(k+i/2)%4; auto x=p.eph(10.*(j+1)); if (x!=ref[j]) ++bad; } }); for(auto&x:t) x.join(); printf("%ld wrong\\n", bad.load()); return bad.load()!=0; }'''}, shim=True,
  sh='''flags="-std=c++20 -O1 -w -g -fsanitize=thread -DBOOST_ALLOW_DEPRECATED_HEADERS -I$here/shim -I/repo/include -I/repo/_build/include"
n=0
pids=()
for f in "$here/demo.cpp" %s; do
    g++ $flags -c "$f" -o "$tmp/$n.o" &
    pids+=($!)
    n=$((n + 1))
done
for p in "${pids[@]}"; do
    wait "$p" || exit 2
done
g++ -fsanitize=thread "$tmp"/*.o -o "$tmp/demo" -lboost_serialization -lfmt -llapack -lblas -lquadmath -lpthread || exit 2
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 250 setarch -R "$tmp/demo" 2>&1 | tail -5
exit ${PIPESTATUS[0]}
''' % " ".join("/repo/" + x for x in PL),
  needs="one planet read by two threads at the same time", breaks="the state remembered by one thread is read by the other while it is written")

S(id="py-stark-shared-integrator", property="K30",
  edits=[("pykep/core.cpp", '''        "_get_stark",
        [](double tol) {
            auto ta_cache = kep3::ta::get_ta_stark(tol);
            heyoka::taylor_adaptive<double> ta(ta_cache);
            return ta;
        },
''', '''        "_get_stark",
        [](double tol) {
            // One integrator per tolerance is enough: no need to copy it at each call
            static std::map<double, py::object> tas;
            auto it = tas.find(tol);
            if (it == tas.end()) {
                it = tas.emplace(tol, py::cast(heyoka::taylor_adaptive<double>(kep3::ta::get_ta_stark(tol)))).first;
            }
            return it->second;
        },
'''), ("pykep/core.cpp", "#include <string>\n", "#include <map>\n#include <string>\n")],
  py='''import sys
import numpy as np
import pykep as pk
a = pk.ta.get_stark(1e-12)
a.time = 3.
a.state[:] = [1., 2., 3., 4., 5., 6., 7.]
b = pk.ta.get_stark(1e-12)
print(a is b, b.time)
b.time = 5.
sys.exit(0 if a is not b and a.time == 3. else 1)
''',
  needs="two integrators asked for the same tolerance", breaks="they are the same object: what is done to one is seen in the other")

S(id="py-lambert-default-revolutions", property="K31",
  edits=[("pykep/core.cpp", 'py::arg("cw") = false, py::arg("multi_revs") = 1)', 'py::arg("cw") = false, py::arg("multi_revs") = 0)')],
  py='''import sys
import pykep as pk
l = pk.lambert_problem(r0=[1, 0, 0], r1=[0, 1, 0], tof=50., mu=1.)
print(l.Nmax)
sys.exit(0 if l.Nmax == 1 and len(l.v0) == 3 else 1)
''',
  needs="a transfer long enough for a whole revolution, the number of revolutions being left at its default", breaks="the solutions with one revolution are not returned")

S(id="py-datetime-milliseconds", property="K32",
  edits=[("pykep/core.cpp", "return kep3::epoch(y, m, d, h, min, s, 0, us);", "return kep3::epoch(y, m, d, h, min, s, us / 1000);")],
  py='''import sys, datetime
import pykep as pk
e = pk.epoch(datetime.datetime(2024, 2, 29, 12, 30, 15, 123456))
print(e)
sys.exit(0 if str(e).strip().endswith("15.123456") else 1)
''',
  needs="a datetime that is not a whole number of milliseconds", breaks="its microseconds are dropped")

S(id="py-period-at-reference", property="K33",
  edits=[("pykep/python_udpla.cpp", '''            auto [r, v] = eph(mjd2000);
            double mu''', '''            auto [r, v] = eph(0.);
            double mu''')],
  py='''import sys
import pykep as pk
class P:
    def eph(self, t):
        return [[1. + 0.001 * t, 0., 0.], [0., 1., 0.]]
    def get_mu_central_body(self):
        return 1.
p = pk.planet(P())
a, b = p.period(0.), p.period(100.)
print(a, b)
sys.exit(0 if abs(a - b) > 0.1 else 1)
''',
  needs="the period, at a date other than that of reference, of a Python planet that is not Keplerian", breaks="it is the period at the reference date")

S(id="mga-direct2eta-four-legs", property="K34",
  edits=[("pykep/trajopt/_mga.py", '''            retval[i] = x[i] / (self.tof - sum(x[1:i]))
''', '''            retval[i] = x[i] / (self.tof - sum(x[max(1, i - 2) : i]))
''')],
  py='''import sys
import numpy as np
import pykep as pk
p = pk.planet(pk.udpla.jpl_lp("earth"))
m = pk.trajopt.mga(seq=[p] * 5, t0=[0, 1000], tof=1000., tof_encoding="eta")
x = [10., 100., 200., 300., 150.]
y = m.eta2direct(m.direct2eta(x))
print(y)
sys.exit(0 if np.allclose(x, y) else 1)
''',
  needs="four legs or more", breaks="the last times of the eta encoding forget the first leg")

S(id="pl2pl-mass-tof-sparsity", property="K35",
  edits=[("pykep/trajopt/_direct_pl2pl.py", '''        for j in range(8, dim):
            retval.append([7, j])
''', '''        for j in range(8, dim - 1):
            retval.append([7, j])
'''), ("pykep/trajopt/_direct_pl2pl.py", '''            retval.extend(mcg_th_tof[i, :] / self.mass_scaling)
            retval[-1] += (
                _np.dot(mcg_xf[i, :3], vf)
                - _np.dot(mcg_xf[i, 3:6], rf) * self.leg.mu / (_np.linalg.norm(rf) ** 3)
            ) / self.mass_scaling
            retval[-1] *= _pk.DAY2SEC
''', '''            retval.extend(mcg_th_tof[i, :-1] / self.mass_scaling)
''')],
  py='''import sys
import numpy as np
import pykep as pk
e, m = pk.planet(pk.udpla.jpl_lp("earth")), pk.planet(pk.udpla.jpl_lp("mars"))
u = pk.trajopt.direct_pl2pl(pls=e, plf=m, nseg=4)
d = 9 + 12
x = np.array([7000., 1400., 0., 0., 0., 0., 0., 0.] + [0.3] * 12 + [400.])
h = 1e-3
a, b = x.copy(), x.copy()
a[-1] -= h
b[-1] += h
num = (np.array(u.fitness(b))[7] - np.array(u.fitness(a))[7]) / (2 * h)
s = {tuple(k): g for k, g in zip(u.gradient_sparsity(), u.gradient(x))}
got = s.get((7, d - 1), 0.)
print(num, got)
sys.exit(0 if abs(num - got) < 1e-5 * abs(num) else 1)
''',
  needs="the derivative of the mass mismatch by the time of flight, in both the gradient and its sparsity", breaks="it is left out of both, as if the burn did not last longer")

S(id="spice-vector-unique", property="K36",
  edits=[("pykep/udpla/_spice.py", "        spice_epochs = (np.array(mjd2000s) - 0.5)*pk.DAY2SEC\n", "        # SPICE is faster on sorted epochs\n        spice_epochs = np.sort((np.array(mjd2000s) - 0.5)*pk.DAY2SEC)\n")],
  py='''import sys
import numpy as np
import pykep as pk
q = pk.udpla.de440s()
p = pk.planet(pk.udpla.spice("EARTH BARYCENTER", "ECLIPJ2000", "SSB"))
t = [100., 50., 75.]
try:
    want = np.array([np.concatenate(p.eph(k)) for k in t])
    got = p.eph_v(t)
except Exception as e:
    print(e)
    sys.exit(2)
print(np.abs(got - want).max())
sys.exit(0 if np.allclose(got, want, rtol=1e-9) else 1)
''',
  needs="vectorised ephemerides at epochs that are not in order", breaks="they come in the order of time, not in the order asked")

S(id="tle-epoch-day", property="K36",
  edits=[("pykep/udpla/_tle.py", '''        jd_i = int(jd)
        jd_fr = jd-jd_i
''', '''        jd_i = int(jd)
        jd_fr = (jd-jd_i) % 0.9999
''')],
  py='''import sys
import numpy as np
import pykep as pk
l1 = "1 33773U 97051L   23290.57931959  .00002095  00000+0  65841-3 0  9991"
l2 = "2 33773  86.4068  33.1145 0009956 224.5064 135.5336 14.40043565770064"
p = pk.planet(pk.udpla.tle(l1, l2))
t = int(pk.epoch("2023-10-31").mjd2000) + 0.49995
a, b = np.array(p.eph(t)[0]), p.eph_v([t])[0, :3]
print(a, b)
sys.exit(0 if np.allclose(a, b, atol=1.) else 1)
''',
  needs="an epoch in the last nine seconds before noon", breaks="the satellite is put where it was most of a day before")

S(id="lambert-plot-grazing", property="K37",
  edits=[("pykep/plot/_lambert.py", "    theta = _np.arccos(_np.clip(cos_theta, -1.0, 1.0))\n", "    theta = _np.arccos(_np.clip(cos_theta, -0.9999, 0.9999))\n")],
  py='''import sys
import numpy as np
import pykep as pk
class Ax:
    def plot(self, x, y, z, **k):
        self.p = np.array([x, y, z]).T
r0, r1 = [1., 0., 0.], [-1.2, 0.001, 0.]
l = pk.lambert_problem(r0=r0, r1=r1, tof=4., mu=1.)
a = Ax()
pk.plot.add_lambert(a, l, units=1.)
d = np.linalg.norm(a.p[-1] - r1)
print(d)
sys.exit(0 if d < 1e-6 else 1)
''',
  needs="a transfer within a degree of half a turn", breaks="the arc drawn stops short of the arrival")
