// Stand-in for heyoka's compiled functions and its VSOP2013 model: expressions in one variable, interpreted; the
// planetary theory is replaced by mean Keplerian motion plus a term proportional to the threshold. A compiled function
// lives as long as the llvm_state that owns it: called later, it returns NaN.
#pragma once
#include "standin.hpp"

#include <atomic>
#include <deque>
#include <mutex>

namespace heyoka
{
namespace detail
{
// Flat expression in one variable.
struct flat {
    struct ins {
        int o = 0;
        std::int32_t a = -1, b = -1;
        double v = 0;
        template <typename Ar>
        void serialize(Ar &ar, unsigned)
        {
            ar & o & a & b & v;
        }
    };
    std::vector<ins> tape;
    std::vector<std::int32_t> out;
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar & tape & out;
    }
    void eval(double *dst, double x) const
    {
        std::vector<double> w(tape.size());
        for (std::size_t i = 0; i < tape.size(); ++i) {
            const auto &t = tape[i];
            double a = t.a >= 0 ? w[static_cast<std::size_t>(t.a)] : 0., b = t.b >= 0 ? w[static_cast<std::size_t>(t.b)] : 0.;
            switch (static_cast<op>(t.o)) {
                case op::num:
                    w[i] = t.v;
                    break;
                case op::var:
                    w[i] = x;
                    break;
                case op::add:
                    w[i] = a + b;
                    break;
                case op::sub:
                    w[i] = a - b;
                    break;
                case op::mul:
                    w[i] = a * b;
                    break;
                case op::div:
                    w[i] = a / b;
                    break;
                case op::neg:
                    w[i] = -a;
                    break;
                case op::pow:
                    w[i] = std::pow(a, b);
                    break;
                case op::sqrt:
                    w[i] = std::sqrt(a);
                    break;
                case op::sin:
                    w[i] = std::sin(a);
                    break;
                case op::cos:
                    w[i] = std::cos(a);
                    break;
                default:
                    throw std::invalid_argument("stand-in: function not available in compiled functions");
            }
        }
        for (std::size_t i = 0; i < out.size(); ++i) {
            dst[i] = w[static_cast<std::size_t>(out[i])];
        }
    }
};

using cfunc_t = void (*)(double *, const double *, const double *, const double *) noexcept;
constexpr std::size_t cfunc_slots = 2048;
struct cfunc_pool {
    std::array<std::shared_ptr<const flat>, cfunc_slots> code;
    // What the functions look at: no lock there, which would order the threads that call them.
    std::array<std::atomic<const flat *>, cfunc_slots> live{};
    std::deque<std::size_t> free;
    std::mutex m;
    cfunc_pool()
    {
        for (std::size_t i = 0; i < cfunc_slots; ++i) {
            free.push_back(i);
        }
    }
    static cfunc_pool &get()
    {
        static auto *p = new cfunc_pool; // never destroyed: the caches of kep3 are static objects too
        return *p;
    }
};
template <std::size_t I>
void cfunc_entry(double *dst, const double *in, const double *, const double *) noexcept
{
    const flat *f = cfunc_pool::get().live[I].load(std::memory_order_acquire);
    if (f != nullptr) {
        f->eval(dst, *in);
    } else {
        for (int i = 0; i < 6; ++i) {
            dst[i] = std::numeric_limits<double>::quiet_NaN();
        }
    }
}
template <std::size_t... I>
cfunc_t cfunc_address(std::size_t i, std::index_sequence<I...>)
{
    static constexpr cfunc_t t[] = {&cfunc_entry<I>...};
    return t[i];
}
} // namespace detail

class llvm_state
{
public:
    llvm_state() = default;
    llvm_state(const llvm_state &o) : m_name(o.m_name), m_code(o.m_code)
    {
        if (o.m_slot >= 0) {
            compile();
        }
    }
    llvm_state(llvm_state &&o) noexcept : m_name(std::move(o.m_name)), m_code(std::move(o.m_code)), m_slot(std::exchange(o.m_slot, -1)) {}
    llvm_state &operator=(const llvm_state &o)
    {
        if (this != &o) {
            *this = llvm_state(o);
        }
        return *this;
    }
    llvm_state &operator=(llvm_state &&o) noexcept
    {
        if (this != &o) {
            drop();
            m_name = std::move(o.m_name);
            m_code = std::move(o.m_code);
            m_slot = std::exchange(o.m_slot, -1);
        }
        return *this;
    }
    ~llvm_state()
    {
        drop();
    }
    void compile()
    {
        if (m_slot >= 0) {
            throw std::invalid_argument("stand-in: already compiled");
        }
        auto &p = detail::cfunc_pool::get();
        std::lock_guard lock(p.m);
        if (p.free.empty()) {
            throw std::runtime_error("stand-in: too many compiled functions");
        }
        m_slot = static_cast<int>(p.free.front());
        p.free.pop_front();
        p.code[static_cast<std::size_t>(m_slot)] = m_code;
        p.live[static_cast<std::size_t>(m_slot)].store(m_code.get(), std::memory_order_release);
    }
    [[nodiscard]] bool is_compiled() const
    {
        return m_slot >= 0;
    }
    [[nodiscard]] std::uintptr_t jit_lookup(const std::string &name) const
    {
        if (m_slot < 0 || name != m_name) {
            throw std::invalid_argument("stand-in: no compiled function called " + name);
        }
        return reinterpret_cast<std::uintptr_t>(detail::cfunc_address(static_cast<std::size_t>(m_slot), std::make_index_sequence<detail::cfunc_slots>{}));
    }

private:
    template <typename T>
    friend void add_cfunc(llvm_state &, const std::string &, const std::vector<expression> &, const std::vector<expression> &);
    friend class boost::serialization::access;
    template <typename Ar>
    void save(Ar &ar, unsigned) const
    {
        bool c = m_slot >= 0;
        detail::flat f = m_code ? *m_code : detail::flat{};
        ar << m_name << f << c;
    }
    template <typename Ar>
    void load(Ar &ar, unsigned)
    {
        drop();
        bool c = false;
        detail::flat f;
        ar >> m_name >> f >> c;
        m_code = std::make_shared<const detail::flat>(std::move(f));
        if (c) {
            compile();
        }
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
    void drop() noexcept
    {
        if (m_slot >= 0) {
            auto &p = detail::cfunc_pool::get();
            std::lock_guard lock(p.m);
            p.live[static_cast<std::size_t>(m_slot)].store(nullptr, std::memory_order_release);
            p.code[static_cast<std::size_t>(m_slot)].reset();
            p.free.push_back(static_cast<std::size_t>(m_slot));
            m_slot = -1;
        }
    }
    std::string m_name;
    std::shared_ptr<const detail::flat> m_code;
    int m_slot = -1;
};

template <typename T>
void add_cfunc(llvm_state &s, const std::string &name, const std::vector<expression> &ex, const std::vector<expression> &vars)
{
    static_assert(std::is_same_v<T, double>);
    if (s.m_slot >= 0 || vars.size() != 1u || vars[0].get()->o != detail::op::var) {
        throw std::invalid_argument("stand-in: add_cfunc() needs a state to be compiled and one variable");
    }
    detail::flat f;
    std::unordered_map<const detail::node *, std::int32_t> memo;
    std::function<std::int32_t(const detail::node_ptr &)> emit = [&](const detail::node_ptr &n) -> std::int32_t {
        if (auto it = memo.find(n.get()); it != memo.end()) {
            return it->second;
        }
        if (n->o == detail::op::var && n->name != vars[0].get()->name) {
            throw std::invalid_argument("stand-in: unknown variable " + n->name);
        }
        detail::flat::ins x;
        x.o = static_cast<int>(n->o);
        x.v = n->val;
        if (!n->args.empty()) {
            x.a = emit(n->args[0]);
        }
        if (n->args.size() > 1u) {
            x.b = emit(n->args[1]);
        }
        f.tape.push_back(x);
        auto id = static_cast<std::int32_t>(f.tape.size()) - 1;
        memo.emplace(n.get(), id);
        return id;
    };
    for (const auto &e : ex) {
        f.out.push_back(emit(e.get()));
    }
    s.m_name = name;
    s.m_code = std::make_shared<const detail::flat>(std::move(f));
}

namespace model
{
// AU**3/day**2, the Sun first.
inline std::array<double, 10> get_vsop2013_mus()
{
    return {2.9591220836841438269e-04, 4.9125474514508118699e-11, 7.2434524861627027000e-10, 8.9970116036316091182e-10, 9.5495351057792580598e-11,
            2.8253458420837780000e-07, 8.4597151856806587398e-08, 1.2920249167819693900e-08, 1.5243589007842762800e-08, 2.1886997654259696800e-12};
}
// a (AU), e, i, W, w, mean anomaly at J2000, mean motion (rad / thousand years).
inline std::array<double, 7> standin_elements(std::uint32_t i)
{
    static const double t[10][6] = {{},
                                    {0.38709831, 0.2056318, 0.4986, 0.1917, 1.1788, 3.0507},
                                    {0.72332982, 0.0067719, 0.4269, 0.1396, 2.1617, 0.8746},
                                    {1.00000102, 0.0167086, 0.4090, 0.0002, 1.7964, 6.2400},
                                    {1.52367934, 0.0934006, 0.4316, 0.0587, 5.8006, 0.3383},
                                    {5.20260320, 0.0484979, 0.4056, 0.0568, 0.1860, 0.3470},
                                    {9.55490959, 0.0555481, 0.3937, 0.1040, 1.5023, 5.5420},
                                    {19.2184461, 0.0463812, 0.4130, 0.0323, 2.9535, 2.4835},
                                    {30.1103869, 0.0094557, 0.3898, 0.0612, 0.8086, 4.4718},
                                    {39.5446173, 0.2490425, 0.4113, 0.7652, 3.2022, 0.2592}};
    auto mus = get_vsop2013_mus();
    return {t[i][0], t[i][1], t[i][2], t[i][3], t[i][4], t[i][5], std::sqrt((mus[0] + mus[i]) / (t[i][0] * t[i][0] * t[i][0])) * 365250.};
}
template <typename... KW>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t idx, const KW &...k)
{
    if (idx < 1u || idx > 9u) {
        throw std::invalid_argument("stand-in: invalid planet index");
    }
    expression T = time;
    double thresh = 1e-9;
    auto set = [&]<typename A>(const A &a) {
        if constexpr (std::is_same_v<decltype(a.value), expression>) {
            T = a.value;
        } else {
            thresh = a.value;
        }
    };
    (set(k), ...);
    if (!std::isfinite(thresh) || thresh < 0) {
        throw std::invalid_argument("stand-in: invalid threshold");
    }
    auto [a, e, i, W, w, M0, n] = standin_elements(idx);
    expression M = M0 + n * T, E = M + e * sin(M);
    for (int it = 0; it < 6; ++it) { // Newton
        E = E - (E - e * sin(E) - M) / (1. - e * cos(E));
    }
    expression X = a * (cos(E) - e), Y = a * std::sqrt(1. - e * e) * sin(E);
    double nd = n / 365250.;
    expression Ed = nd / (1. - e * cos(E)), VX = -a * sin(E) * Ed, VY = a * std::sqrt(1. - e * e) * cos(E) * Ed;
    double cW = std::cos(W), sW = std::sin(W), cw = std::cos(w), sw = std::sin(w), ci = std::cos(i), si = std::sin(i);
    double P[3] = {cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si}, Q[3] = {-cW * sw - sW * cw * ci, -sW * sw + cW * cw * ci, cw * si};
    std::vector<expression> r;
    for (int c = 0; c < 3; ++c) {
        r.push_back(P[c] * X + Q[c] * Y + thresh * (c + 1.) * cos(T));
    }
    for (int c = 0; c < 3; ++c) {
        r.push_back(P[c] * VX + Q[c] * VY - thresh * (c + 1.) * sin(T) / 365250.);
    }
    return r;
}
} // namespace model
} // namespace heyoka
