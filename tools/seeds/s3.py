SEEDS = []
def S(**k): SEEDS.append(k)

S(id="py-stm-shared-buffer", property="K30",
  edits=[("pykep/core.cpp", '''                // We create a capsule for the py::array_t to manage ownership change.
                auto vec_ptr = std::make_unique<std::array<double, 36>>(stm);

                py::capsule vec_caps(vec_ptr.get(), [](void *ptr) {
                    const std::unique_ptr<std::array<double, 36>> vptr(static_cast<std::array<double, 36> *>(ptr));
                });

                // NOTE: at this point, the capsule has been created successfully (including
                // the registration of the destructor). We can thus release ownership from vec_ptr,
                // as now the capsule is responsible for destroying its contents. If the capsule constructor
                // throws, the destructor function is not registered/invoked, and the destructor
                // of vec_ptr will take care of cleaning up.
                auto *ptr = vec_ptr.release();

                auto computed_stm''', '''                // One buffer, to avoid an allocation at each call.
                static std::array<double, 36> buffer;
                buffer = stm;
                auto *ptr = &buffer;

                py::capsule vec_caps(static_cast<void *>(ptr), [](void *) {});

                auto computed_stm''')],
  py='''import sys
import numpy as np
import pykep as pk
_, a = pk.propagate_lagrangian([[1., 0., 0.], [0., 1., 0.1]], 0.5, 1., True)
b = np.array(a)
_, d = pk.propagate_lagrangian([[1., 0.2, 0.], [0., 1.1, 0.1]], 1.5, 1., True)
print(np.max(np.abs(a - b)))
sys.exit(0 if np.array_equal(a, b) else 1)
''',
  needs="a state transition matrix that is kept while another one is computed", breaks="the two share their memory: the first changes")

S(id="py-leg-shared-gradient", property="K31",
  edits=[("pykep/core.cpp", '''        [](const kep3::leg::sims_flanagan &leg) {
            const std::vector<double> tc_cpp = leg.compute_tc_grad();
            // Lets transfer ownership to python
            const std::vector<double> &tc_cpp_addr = tc_cpp;
            // We create a capsule for the py::array_t to manage ownership change.
            auto vec_ptr = std::make_unique<std::vector<double>>(tc_cpp_addr);
            py::capsule vec_caps(vec_ptr.get(), [](void *ptr) {
                const std::unique_ptr<std::vector<double>> vptr(static_cast<std::vector<double> *>(ptr));
            });
            // NOTE: at this point, the capsule has been created successfully (including
            // the registration of the destructor). We can thus release ownership from vec_ptr,
            // as now the capsule is responsible for destroying its contents. If the capsule constructor
            // throws, the destructor function is not registered/invoked, and the destructor
            // of vec_ptr will take care of cleaning up.
            auto *ptr = vec_ptr.release();
''', '''        [](const kep3::leg::sims_flanagan &leg) {
            // One matrix per number of segments, to avoid an allocation at each call.
            static std::map<unsigned, std::vector<double>> matrices;
            auto *ptr = &matrices[leg.get_nseg()];
            const auto tc_cpp = leg.compute_tc_grad();
            ptr->resize(tc_cpp.size());
            std::copy(tc_cpp.begin(), tc_cpp.end(), ptr->begin());
            py::capsule vec_caps(static_cast<void *>(ptr), [](void *) {});
'''), ("pykep/core.cpp", "#include <string>\n\n#include <fmt", "#include <algorithm>\n#include <map>\n#include <string>\n\n#include <fmt")],
  py='''import sys
import numpy as np
import pykep as pk
s = pk.leg.sims_flanagan()
s.throttles = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6]
a = s.compute_tc_grad()
b = np.array(a)
s.throttles = [0.3, 0.2, 0.3, 0.4, -0.5, 0.6]
s.compute_tc_grad()
print(a, b)
sys.exit(0 if np.array_equal(a, b) else 1)
''',
  needs="the gradient of the throttle constraints that is kept while another leg of as many segments computes its own", breaks="the two share their memory: the first changes")

S(id="py-epoch-float-seconds", property="K32",
  edits=[("pykep/core.cpp", '''[](kep3::epoch ep, std::chrono::duration<double, std::ratio<1>> dt) { return ep - dt; });''',
          '''[](kep3::epoch ep, std::chrono::duration<float, std::ratio<1>> dt) { return ep - dt; });''')],
  py='''import sys
import datetime
import pykep as pk
d = datetime.timedelta(days=100, seconds=12345, microseconds=678901)
e = pk.epoch(1000.25)
r = (e + d) - d
print(r, e, (r.mjd2000 - e.mjd2000) * 86400)
sys.exit(0 if abs(r.mjd2000 - e.mjd2000) * 86400 < 1e-3 else 1)
''',
  needs="a timedelta of some days that is not a round number of seconds, subtracted", breaks="it is rounded to about seven digits")

S(id="py-ephv-memory-order", property="K33",
  edits=[("pykep/python_udpla.cpp", '''ret.attr("flatten")()''', '''ret.attr("flatten")("K")''')],
  py='''import sys
import numpy as np
import pykep as pk
class body:
    def eph(self, t):
        return [[1. + t, 2., 3.], [4., 5., 6.]]
    def eph_v(self, ts):
        ts = np.asarray(ts)
        # one row per component, transposed at the end
        return np.array([1. + ts] + [np.full(len(ts), float(k)) for k in (2, 3, 4, 5, 6)]).T
p = pk.planet(body())
got = np.array(p.eph_v([0.5, 1.5, 2.5]))
want = np.array([np.concatenate(p.eph(t)) for t in (0.5, 1.5, 2.5)])
print(got)
sys.exit(0 if got.shape == want.shape and np.array_equal(got, want) else 1)
''',
  needs="a Python planet whose eph_v returns an array that is not in row order, such as a transposed one", breaks="its ephemerides come in the order of the memory")

S(id="mga-eta-three-legs", property="K34",
  edits=[("pykep/trajopt/_mga.py", '''            for i in range(1, len(T)):
                T[i] = (dt - sum(T[:i])) * x[i + 1]
            return T
''', '''            for i in range(1, len(T)):
                T[i] = (dt - T[i - 1]) * x[i + 1]
            return T
''')],
  py='''import sys
import numpy as np
import pykep as pk
p = pk.planet(pk.udpla.jpl_lp("earth"))
v = pk.planet(pk.udpla.jpl_lp("venus"))
m = pk.trajopt.mga(seq=[p, v, p, v], t0=[0, 1000], tof=900., tof_encoding="eta")
d = pk.trajopt.mga(seq=[p, v, p, v], t0=[0, 1000], tof=[[10, 900]] * 3, tof_encoding="direct")
x = [100.3, 0.3, 0.5, 0.7]
a, b = m.fitness(x)[0], d.fitness(m.eta2direct(x))[0]
print(a, b)
sys.exit(0 if abs(a - b) < 1e-6 * b else 1)
''',
  needs="three legs or more with the eta encoding", breaks="the third duration forgets the first")

S(id="pl2pl-cached-ephemerides", property="K35",
  edits=[("pykep/trajopt/_direct_pl2pl.py", '''        rs, vs = self.pls.eph(x[0])
        rf, vf = self.plf.eph(x[0] + x[-1])
''', '''        if getattr(self, "_at", None) != x[0]:
            self._at = x[0]
            self._ephs = self.pls.eph(x[0]), self.plf.eph(x[0] + x[-1])
        (rs, vs), (rf, vf) = self._ephs
''')],
  py='''import sys
import numpy as np
import pykep as pk
def udp():
    return pk.trajopt.direct_pl2pl(pls=pk.planet(pk.udpla.jpl_lp("earth")), plf=pk.planet(pk.udpla.jpl_lp("mars")), nseg=2)
x = [1000.3, 1000., 10., 20., 30., 40., 50., 60., 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 250.]
u = udp()
u.fitness(x)
y = list(x)
y[-1] = 300.
a, b = u.fitness(y), udp().fitness(y)
print(a, b)
sys.exit(0 if np.allclose(a, b, rtol=1e-9, atol=1e-9) else 1)
''',
  needs="two evaluations in a row with the same launch epoch and different times of flight, as in a numerical gradient", breaks="the second aims at the place of the arrival planet at the first arrival")

S(id="pl2pl-launch-gradient", property="K35",
  edits=[("pykep/trajopt/_direct_pl2pl.py", '''                - _np.dot(mcg_xs[i, 3:6], rs) * self.leg.mu / (_np.linalg.norm(rs) ** 3)
                + _np.dot(mcg_xf[i, :3], vf)
                - _np.dot(mcg_xf[i, 3:6], rf) * self.leg.mu / (_np.linalg.norm(rf) ** 3)
            )  # here''', '''                - _np.dot(mcg_xs[i, 3:6], rs) * self.leg.mu / (_np.linalg.norm(rs) ** 3)
                + _np.dot(mcg_xf[i, :3], vf)
                - _np.dot(mcg_xf[i, 3:6], rf) * self.leg.mu / (_np.linalg.norm(rs) ** 3)
            )  # here''')],
  py='''import sys
import numpy as np
import pykep as pk
def body(a, M):
    return pk.planet(pk.udpla.keplerian(pk.epoch(0.), [a * pk.AU, 0.05, 0.1, 0.2, 0.3, M], pk.MU_SUN))
u = pk.trajopt.direct_pl2pl(pls=body(1., 0.4), plf=body(1.5, 2.), mu=pk.MU_SUN, nseg=2)
x = [1000.3, 1000., 10., 20., 30., 40., 50., 60., 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 250.]
s = np.array(u.gradient_sparsity())
g = np.array(u.gradient(x))
h = 1e-2
y, z = list(x), list(x)
y[0] += h
z[0] -= h
want = (np.array(u.fitness(y)) - np.array(u.fitness(z))) / (2 * h)
d = max(abs(v - want[i]) for (i, j), v in zip(s, g) if j == 0)
print(d, max(abs(want)))
sys.exit(0 if d < 1e-5 * max(abs(want)) else 1)
''',
  needs="planets at different distances and the gradient by the launch epoch", breaks="the acceleration of the arrival planet is that at the distance of the departure planet")

S(id="spice-vector-observer", property="K36",
  edits=[("pykep/udpla/_spice.py", '''pyspice.spkezr(self.body, spice_epochs, self.ref_frame, "NONE", self.obs)''', '''pyspice.spkezr(self.body, spice_epochs, self.ref_frame, "NONE", "SSB")''')],
  py='''import sys
import numpy as np
import pykep as pk
pk.utils.load_spice_kernels("some.bsp")
p = pk.planet(pk.udpla.spice("MARS BARYCENTER", "ECLIPJ2000", "SUN"))
got = np.array(p.eph_v([100.5, 2000.25])).reshape(2, 6)
want = np.array([np.concatenate(p.eph(t)) for t in (100.5, 2000.25)])
print(got - want)
sys.exit(0 if np.allclose(got, want, rtol=1e-9) else 1)
''',
  needs="an observer other than the barycentre and vectorised ephemerides", breaks="they are relative to the barycentre of the Solar System")

S(id="sf-leg-plot-lightening", property="K37",
  edits=[("pykep/plot/_sf_leg.py", '''        rv[1] = [a + b * c / mass_fwd for a, b in zip(rv[1], throttles)]''', '''        rv[1] = [a + b * c / sf.ms for a, b in zip(rv[1], throttles)]''')],
  py='''import sys
import numpy as np
import pykep as pk
class axes:
    def __init__(self):
        self.lines = []
    def plot(self, x, y, z, *a, **k):
        self.lines.append(np.array([x, y, z], dtype=float))
    def __getattr__(self, name):
        return lambda *a, **k: None
s = pk.leg.sims_flanagan()
s.rvs, s.ms, s.mf, s.tof, s.max_thrust, s.isp, s.cut = [[1., 0., 0.], [0., 1., 0.1]], 1., 0.5, 1.5, 0.2, 0.05, 1.
s.throttles = [0.5, 0.6, 0.1] * 4
ax = axes()
pk.plot.add_sf_leg(ax, s, units=1., show_gridpoints=True)
end = [l for l in ax.lines if l.shape == (3, 5)][0][:, -1]
# the leg itself: with the end of the drawn one as its final position there is no mismatch
s.rvf = [list(end), [0., 0., 0.]]
m = s.compute_mismatch_constraints()[:3]
print(m)
sys.exit(0 if max(abs(a) for a in m) < 1e-9 else 1)
''',
  needs="a leg that burns a good part of its mass", breaks="the arcs drawn after the first impulse ignore that the spacecraft is lighter")
