CORE = ["src/linalg.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp"]
LEG = CORE + ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp"]
LAM = CORE + ["src/lambert_problem.cpp"]
EP = ["src/epoch.cpp"]
PL = EP + CORE + ["src/planet.cpp", "src/core_astro/flyby.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"]
STARK = ["src/ta/stark.cpp", "src/stark_problem.cpp"]
HF = ["src/ta/stark.cpp", "src/leg/sf_checks.cpp", "src/leg/sims_flanagan_hf.cpp", "src/linalg.cpp"]
H = "#include <cmath>\n#include <cstdio>\n#include <array>\n#include <vector>\n#include <sstream>\n#include <stdexcept>\n"
ARCH = "#include <boost/archive/binary_oarchive.hpp>\n#include <boost/archive/binary_iarchive.hpp>\n#include <boost/archive/text_oarchive.hpp>\n#include <boost/archive/text_iarchive.hpp>\n"
SEEDS = []
def S(**k): SEEDS.append(k)

S(id="cr3bp-merged-attraction", property="K22", shim=True, srcs=["src/ta/cr3bp.cpp"],
  edits=[("src/ta/cr3bp.cpp", "const auto vzdot = -(1. - par[0]) * z / pow(r_1, 3.) - par[0] * z / pow(r_2, 3.);", "const auto vzdot = -z / pow(r_1, 3.);")],
  demo=H + '''#include <kep3/ta/cr3bp.hpp>
int main(){ auto ta=kep3::ta::get_ta_cr3bp(1e-12); heyoka::taylor_adaptive<double> t(ta); *t.get_pars_data()=0.2; double s[6]={0.75,0.1,0.2,0.,0.3,0.1}; std::copy(s,s+6,t.get_state_data()); t.set_time(0.);
 auto C=[&](const double*x){ double m=0.2,r1=std::hypot(std::hypot(x[0]+m,x[1]),x[2]),r2=std::hypot(std::hypot(x[0]+m-1,x[1]),x[2]); return x[0]*x[0]+x[1]*x[1]+2*(1-m)/r1+2*m/r2-x[3]*x[3]-x[4]*x[4]-x[5]*x[5]; };
 double c0=C(s); t.propagate_until(0.3); double c1=C(t.get_state().data()); printf("Jacobi %.12f %.12f\\n",c0,c1); return !(std::abs(c0-c1)<1e-9); }''',
  needs="motion out of the plane of the primaries, near the smaller one", breaks="the smaller primary attracts only in the plane")

S(id="stark-cache-decade", property="K22", shim=True, srcs=["src/ta/stark.cpp"],
  edits=[("src/ta/stark.cpp", "    if (auto it = ta_stark_cache.find(tol); it == ta_stark_cache.end()) {", "    // Tolerances closer than a factor of two need not different integrators.\n    if (auto it = ta_stark_cache.find(std::exp2(std::round(std::log2(tol)))); it == ta_stark_cache.end()) {"),
         ("src/ta/stark.cpp", "return ta_stark_cache.insert(std::make_pair(tol, std::move(new_ta))).first->second;", "return ta_stark_cache.insert(std::make_pair(std::exp2(std::round(std::log2(tol))), std::move(new_ta))).first->second;")],
  demo=H + '''#include <kep3/ta/stark.hpp>
int main(){ kep3::ta::get_ta_stark(1.3e-9); kep3::ta::get_ta_stark(0.9e-9); printf("%zu\\n",kep3::ta::get_ta_stark_cache_dim()); if (kep3::ta::get_ta_stark_cache_dim()!=2) return 1; return !(kep3::ta::get_ta_stark(0.9e-9).get_tol()==0.9e-9); }''',
  needs="two different tolerances within a factor of two, the looser one asked first", breaks="the second integrator is the first one, with the looser tolerance")

S(id="stark-set-veff-half", property="K23", shim=True, srcs=STARK,
  edits=[("src/stark_problem.cpp", "    *(m_ta.get_pars_data()+1) = m_veff;\n    *(m_ta_var.get_pars_data()+1) = m_veff;\n};", "    *(m_ta.get_pars_data()+1) = m_veff;\n};")],
  demo=H + '''#include <kep3/stark_problem.hpp>
int main(){ kep3::stark_problem p(1.,1.,1e-12); p.set_veff(3.); std::array<double,7> s{1.,0.,0.1,0.,1.,0.,1.}; std::array<double,3> u{0.01,0.02,0.}; auto a=p.propagate(s,u,1.); auto b=std::get<0>(p.propagate_var(s,u,1.)); printf("%g %g\\n",a[6],b[6]); return !(std::abs(a[6]-b[6])<1e-10); }''',
  needs="set_veff followed by propagate_var", breaks="the variational propagation keeps the old exhaust velocity")

S(id="stark-backward-chained", property="K23", shim=True, srcs=STARK,
  edits=[("src/stark_problem.cpp", "    std::copy(m_var_ic.begin(), m_var_ic.end(), m_ta_var.get_state_data()+7);", "    if (tof > 0) {\n        std::copy(m_var_ic.begin(), m_var_ic.end(), m_ta_var.get_state_data()+7);\n    }")],
  demo=H + '''#include <kep3/stark_problem.hpp>
int main(){ kep3::stark_problem p(1.,1.,1e-12),f(1.,1.,1e-12); std::array<double,7> s{1.,0.,0.1,0.,1.,0.,1.}; std::array<double,3> u{0.01,0.02,0.}; p.propagate_var(s,u,1.); auto a=std::get<1>(p.propagate_var(s,u,-0.5)), b=std::get<1>(f.propagate_var(s,u,-0.4)); b=std::get<1>(kep3::stark_problem(1.,1.,1e-12).propagate_var(s,u,1e-300)); f.propagate_var(s,u,1e-300); b=std::get<1>(f.propagate_var(s,u,-0.5));
 double d=0; for(int i=0;i<49;i++) d=std::max(d,std::abs(a[i]-b[i])); printf("%g\\n",d); return !(d<1e-9); }''',
  needs="propagate_var backwards after another propagate_var", breaks="the matrix of the backward arc is chained to that of the previous call")

S(id="hf-coast-keeps-thrust", property="K24", shim=True, srcs=HF,
  edits=[("src/leg/sims_flanagan_hf.cpp", '''        // Assign current_thrusts to Taylor adaptive integrator
        std::copy(std::next(m_thrusts.begin(), static_cast<long>((m_nseg - (i + 1)) * 3)),
                    std::next(m_thrusts.begin(), static_cast<long>((m_nseg - i) * 3)),
                    std::next(m_tas.get_pars_data(), 2));
        // ... and integrate
        auto [status, min_h, max_h, nsteps, _1, _2] = m_tas.propagate_until(m_tof - (i + 1) * prop_seg_duration);''',
'''        // Assign current_thrusts to Taylor adaptive integrator (unless they are those of the segment before)
        if (i == 0u || m_thrusts[(m_nseg - (i + 1)) * 3] != m_thrusts[(m_nseg - i) * 3]) {
        std::copy(std::next(m_thrusts.begin(), static_cast<long>((m_nseg - (i + 1)) * 3)),
                    std::next(m_thrusts.begin(), static_cast<long>((m_nseg - i) * 3)),
                    std::next(m_tas.get_pars_data(), 2));
        }
        // ... and integrate
        auto [status, min_h, max_h, nsteps, _1, _2] = m_tas.propagate_until(m_tof - (i + 1) * prop_seg_duration);''')],
  demo=H + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.1}}},f{{{0.,1.1,0.},{-0.9,0.,0.}}};
 std::vector<double> t{0.1,0.2,0.3, 0.,0.4,0.1, 0.,-0.3,0.5}; kep3::leg::sims_flanagan_hf a(s,1.,t,f,0.9,1.2,0.05,2.,1.,0.,1e-12);
 // the same with a throttle that differs in all of its components
 t[3]=1e-13; kep3::leg::sims_flanagan_hf b(s,1.,t,f,0.9,1.2,0.05,2.,1.,0.,1e-12);
 auto x=a.compute_mismatch_constraints(), y=b.compute_mismatch_constraints(); double d=0; for(int i=0;i<7;i++) d=std::max(d,std::abs(x[i]-y[i])); printf("%g\\n",d); return !(d<1e-9); }''',
  needs="two consecutive backward segments with the same first throttle component, as for thrust in the y-z plane or coasts", breaks="the second of them is flown with the throttle of the first")

S(id="hf-history-last-point", property="K24", shim=True, srcs=HF,
  edits=[("src/leg/sims_flanagan_hf.cpp", "        output_per_seg[m_nseg - 1 - i] = output_states;", "        output_per_seg[m_nseg_fwd + i] = output_states;")],
  demo=H + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.1}}},f{{{0.,1.1,0.},{-0.9,0.,0.}}};
 std::vector<double> t{0.1,0.2,0.3, 0.2,0.4,0.1, 0.1,-0.3,0.5}; kep3::leg::sims_flanagan_hf a(s,1.,t,f,0.9,1.2,0.05,2.,1.,0.4,1e-12); auto h=a.get_state_history(3);
 // backward segments start from their end: the last one starts from the final state
 printf("%g\\n",h[2][0]); return !(std::abs(h[2][1]-1.1)<1e-12); }''',
  needs="a leg with two or more backward segments", breaks="the histories of the backward segments come in the opposite order")

S(id="hf-tof-gradient-start", property="K25", shim=True, srcs=HF,
  edits=[("src/leg/sims_flanagan_hf.cpp", "        x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - (i - 1)];", "        x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - i];")],
  demo=H + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.1}}},f{{{0.,1.1,0.},{-0.9,0.,0.}}}; std::vector<double> t{0.1,0.2,0.3, 0.2,0.4,0.1, 0.1,-0.3,0.5};
 auto mc=[&](double tof){ return kep3::leg::sims_flanagan_hf(s,1.,t,f,0.9,tof,0.05,2.,1.,0.4,1e-14).compute_mismatch_constraints(); };
 auto g=std::get<2>(kep3::leg::sims_flanagan_hf(s,1.,t,f,0.9,1.2,0.05,2.,1.,0.4,1e-14).compute_mc_grad()); auto p=mc(1.2+1e-4), m=mc(1.2-1e-4); double d=0; for(int i=0;i<7;i++) d=std::max(d,std::abs((p[i]-m[i])/2e-4-g[10*i+9])); printf("%g\\n",d); return !(d<1e-5); }''',
  needs="a leg with two or more backward segments, and its derivative by the time of flight", breaks="that derivative is taken at the wrong end of the backward segments")

S(id="hf-gradient-chain", property="K25", shim=True, srcs=HF,
  edits=[("src/leg/sims_flanagan_hf.cpp", "            corresponding_M = Mn_o[i - 1] * -1; // Multiple by -1 because mass correlation is -1.", "            corresponding_M = Mn_o[m_nseg_fwd] * -1; // Multiple by -1 because mass correlation is -1.")],
  demo=H + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.1}}},f{{{0.,1.1,0.},{-0.9,0.,0.}}}; std::vector<double> t{0.1,0.2,0.3, 0.2,0.4,0.1, 0.1,-0.3,0.5};
 double d=0; auto g=std::get<2>(kep3::leg::sims_flanagan_hf(s,1.,t,f,0.9,1.2,0.05,2.,1.,0.,1e-14).compute_mc_grad());
 for (int j=0;j<9;j++) { auto a=t,b=t; a[j]+=1e-4; b[j]-=1e-4; auto p=kep3::leg::sims_flanagan_hf(s,1.,a,f,0.9,1.2,0.05,2.,1.,0.,1e-14).compute_mismatch_constraints(), m=kep3::leg::sims_flanagan_hf(s,1.,b,f,0.9,1.2,0.05,2.,1.,0.,1e-14).compute_mismatch_constraints();
 for(int i=0;i<7;i++) d=std::max(d,std::abs((p[i]-m[i])/2e-4-g[10*i+j])); } printf("%g\\n",d); return !(d<1e-5); }''',
  needs="a leg with three or more backward segments", breaks="the derivatives by the throttles of its last segments skip the segments in between")

S(id="hf-iterators-stale-split", property="K26", shim=True, srcs=HF,
  edits=[("src/leg/sims_flanagan_hf.cpp", '''    std::copy(it1, it2, m_throttles.begin());
    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
    m_nseg_bck = m_nseg - m_nseg_fwd;
''', '''    std::copy(it1, it2, m_throttles.begin());
    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
    m_nseg_fwd = std::min(m_nseg, m_nseg_fwd);
    m_nseg_bck = m_nseg - m_nseg_fwd;
''')],
  demo=H + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ kep3::leg::sims_flanagan_hf a; std::vector<double> t(24,0.1); a.set_throttles(t.cbegin(),t.cend()); printf("%u %u\\n",a.get_nseg_fwd(),a.get_nseg_bck()); return !(a.get_nseg_fwd()==4 && a.get_nseg_bck()==4); }''',
  needs="throttles set by iterators, to a different number of segments", breaks="the cut no longer says how the segments are split")

S(id="hf-archive-integrator", property="K26", shim=True, srcs=HF,
  edits=[("include/kep3/leg/sims_flanagan_hf.hpp", "        ar & m_tas;\n", "")],
  demo=H + ARCH + '''#include <kep3/leg/sims_flanagan_hf.hpp>
int main(){ std::array<std::array<double,3>,2> s{{{1.,0.,0.},{0.,1.,0.1}}},f{{{0.,1.1,0.},{-0.9,0.,0.}}}; std::vector<double> t{0.1,0.2,0.3, 0.2,0.4,0.1}; kep3::leg::sims_flanagan_hf a(s,1.,t,f,0.9,1.2,0.05,2.,1.1,0.5,1e-12),b;
 std::stringstream ss; { boost::archive::binary_oarchive o(ss); o << a; } { boost::archive::binary_iarchive i(ss); i >> b; } auto x=a.compute_mismatch_constraints(),y=b.compute_mismatch_constraints(); double d=0; for (size_t i=0;i<x.size();i++) d=std::max(d,std::abs(x[i]-y[i]));
 printf("%g\\n",d); return !(d<1e-9); }''',
  needs="the mismatch of a leg read from an archive, with parameters other than the default ones", breaks="it is computed with the default gravitational parameter and specific impulse")

S(id="vsop-archive-threshold", property="K27", shim=True, srcs=PL + ["src/udpla/vsop2013.cpp"],
  edits=[("src/udpla/vsop2013.cpp", "        ar << m_thresh;\n", ""), ("src/udpla/vsop2013.cpp", "        ar >> m_thresh;\n", "")],
  demo=H + ARCH + '''#include <kep3/udpla/vsop2013.hpp>
#include <kep3/planet.hpp>
int main(){ kep3::udpla::vsop2013 u("venus",1e-3); kep3::planet p(u),q; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o << p; } { boost::archive::binary_iarchive i(ss); i >> q; } printf("%s | %s\\n",p.get_name().c_str(),q.get_name().c_str()); return p.get_name()!=q.get_name(); }''',
  needs="a planet that went through an archive", breaks="it forgets the threshold that its series was cut at")

S(id="vsop-small-threshold", property="K27", shim=True, srcs=PL + ["src/udpla/vsop2013.cpp"],
  edits=[("src/udpla/vsop2013.cpp", "    boost::algorithm::to_lower(pl_name);\n    const auto pl_it", "    boost::algorithm::to_lower(pl_name);\n    if (thresh < 1e-9) { // no term of the series is smaller\n        thresh = 0;\n    }\n    const auto pl_it")],
  demo=H + '''#include <kep3/udpla/vsop2013.hpp>
int main(){ kep3::udpla::vsop2013 u("venus",5e-10); printf("%s\\n",u.get_name().c_str()); return u.get_name().find("5e-10")==std::string::npos; }''',
  needs="a threshold below 1e-9", breaks="the threshold asked for is neither used nor reported")

S(id="stark-unlocked-lookup", property="K28", shim=True,
  edits=[("src/ta/stark.cpp", '''    // Lock down for access to cache.
    std::lock_guard const lock(ta_stark_mutex);

    // Lookup.
    if (auto it = ta_stark_cache.find(tol); it == ta_stark_cache.end()) {
        // Cache miss, create new one.
''', '''    // Lookup.
    if (auto it = ta_stark_cache.find(tol); it == ta_stark_cache.end()) {
        // Cache miss, create new one.
        // Lock down for access to cache.
        std::lock_guard const lock(ta_stark_mutex);
''')],
  files={"race.cpp": '''#include <kep3/ta/stark.hpp>
#include <thread>
#include <vector>
int main(){ std::vector<std::thread> t; for(int k=0;k<6;k++) t.emplace_back([k]{ for(int i=1;i<40;i++) kep3::ta::get_ta_stark(1e-9*i*(1+k%3)); }); for(auto&x:t) x.join(); return 0; }'''},
  sh='''for s in "$here/race.cpp" /repo/src/ta/stark.cpp; do
    g++ -std=c++20 -O1 -g -w -fsanitize=thread -I"$here/shim" -I/repo/include -I/repo/_build/include -c "$s" -o "$tmp/$(basename "$s").o" || exit 2
done
g++ -fsanitize=thread "$tmp"/*.o -o "$tmp/race" -lboost_serialization -lfmt -lpthread || exit 2
TSAN_OPTIONS="halt_on_error=1 exitcode=66" "$tmp/race"
''',
  needs="two threads asking for integrators, one of them for a new tolerance", breaks="the cache is searched while another thread inserts in it")

S(id="cr3bp-shared-lock", property="K28", shim=True,
  edits=[("src/ta/cr3bp.cpp", '''    // Lock down for access to cache.
    std::lock_guard const lock(ta_cr3bp_var_mutex);

    // Lookup.''', '''    // Lock down for access to cache.
    std::lock_guard const lock(ta_cr3bp_mutex);

    // Lookup.''')],
  files={"race.cpp": '''#include <kep3/ta/cr3bp.hpp>
#include <thread>
#include <vector>
int main(){ std::vector<std::thread> t; for(int k=0;k<6;k++) t.emplace_back([k]{ for(int i=1;i<20;i++) if (k%2) kep3::ta::get_ta_cr3bp_var(1e-9*i*(1+k)); else for(int j=0;j<50;j++) kep3::ta::get_ta_cr3bp_var_cache_dim(); }); for(auto&x:t) x.join(); return 0; }'''},
  sh='''for s in "$here/race.cpp" /repo/src/ta/cr3bp.cpp; do
    g++ -std=c++20 -O1 -g -w -fsanitize=thread -I"$here/shim" -I/repo/include -I/repo/_build/include -c "$s" -o "$tmp/$(basename "$s").o" || exit 2
done
g++ -fsanitize=thread "$tmp"/*.o -o "$tmp/race" -lboost_serialization -lfmt -lpthread || exit 2
TSAN_OPTIONS="halt_on_error=1 exitcode=66" "$tmp/race"
''',
  needs="one thread asking for the size of the variational cache while another fills it", breaks="the two are under different locks")

S(id="lambert-one-past-end", property="K29",
  edits=[("src/lambert_problem.cpp", "    m_iters.resize(static_cast<size_t>(m_Nmax) * 2 + 1);", "    m_iters.resize(std::min(static_cast<size_t>(m_Nmax) * 2 + 1, static_cast<size_t>(64)));")],
  files={"over.cpp": '''#include <kep3/lambert_problem.hpp>
int main(){ for(double t=1.;t<1000.;t*=1.3) kep3::lambert_problem l({1.,0.1,0.},{-0.2,1.3,0.1},t,1.,false,50); return 0; }'''},
  sh='''n=0
for s in "$here/over.cpp" %s; do
    n=$((n + 1))
    echo "$s $tmp/$n.o"
done | xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -g -w -fsanitize=address -I/repo/include -I/repo/_build/include -c "$0" -o "$1"' || exit 2
g++ -fsanitize=address "$tmp"/*.o -o "$tmp/over" -lboost_serialization -lfmt -llapack -lblas || exit 2
"$tmp/over"
''' % " ".join("/repo/" + x for x in LAM),
  needs="32 or more revolutions", breaks="the numbers of iterations are written past the end of their vector")

S(id="leg-gradient-overread", property="K29",
  edits=[("src/leg/sims_flanagan.cpp", "    for (auto it = th1; it != th2; it += 3) {\n        u[i_tmp](0, 0) = *it;", "    for (auto it = th1; it < th2; it += 3) {\n        u[i_tmp](0, 0) = *(it + 3) == *it ? *(it + 3) : *it;")],
  files={"over.cpp": '''#include <kep3/leg/sims_flanagan.hpp>
int main(){ for(unsigned n=1;n<8;n++) { kep3::leg::sims_flanagan l; l.set_max_thrust(0.01); l.set_throttles(std::vector<double>(3*n,0.1)); l.compute_mc_grad(); } return 0; }'''},
  sh='''n=0
for s in "$here/over.cpp" %s; do
    n=$((n + 1))
    echo "$s $tmp/$n.o"
done | xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -g -w -fsanitize=address -I/repo/include -I/repo/_build/include -c "$0" -o "$1"' || exit 2
g++ -fsanitize=address "$tmp"/*.o -o "$tmp/over" -lboost_serialization -lfmt -llapack -lblas || exit 2
"$tmp/over"
''' % " ".join("/repo/" + x for x in LEG),
  needs="the gradient of any leg, seen by a memory checker", breaks="throttles past the last are read")
