// Stand-in for the parts of heyoka used by kep3 (heyoka is not installed here): expressions, first-order variational
// systems and an adaptive Taylor integrator, interpreted instead of compiled. Same interface, layout of the variational
// state (row by row) and outcomes as heyoka.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

namespace heyoka
{

namespace detail
{
enum class op : int { num, var, par, time, add, sub, mul, div, neg, pow, sqrt, select, eq, neq, lt, gt, lte, gte, sin, cos, exp, log };
struct node;
using node_ptr = std::shared_ptr<const node>;
struct node {
    op o = op::num;
    double val = 0;       // constant
    std::string name;     // variable
    std::uint32_t idx = 0; // parameter
    std::vector<node_ptr> args;
};
inline node_ptr mk(op o, std::vector<node_ptr> args)
{
    return std::make_shared<const node>(node{o, 0, {}, 0, std::move(args)});
}
} // namespace detail

class expression
{
public:
    expression() : expression(0.) {}
    explicit expression(double x) : m_n(std::make_shared<const detail::node>(detail::node{detail::op::num, x, {}, 0, {}})) {}
    explicit expression(std::string s) : m_n(std::make_shared<const detail::node>(detail::node{detail::op::var, 0, std::move(s), 0, {}})) {}
    explicit expression(const char *s) : expression(std::string(s)) {}
    explicit expression(detail::node_ptr p) : m_n(std::move(p)) {}
    [[nodiscard]] const detail::node_ptr &get() const
    {
        return m_n;
    }

private:
    detail::node_ptr m_n;
};

namespace detail
{
template <typename T>
inline constexpr bool is_ex = std::is_same_v<std::remove_cvref_t<T>, expression>;
template <typename T>
concept operand = is_ex<T> || std::is_arithmetic_v<std::remove_cvref_t<T>>;
template <typename A, typename B>
concept operands = operand<A> && operand<B> && (is_ex<A> || is_ex<B>);
template <typename T>
const node_ptr up(const T &x)
{
    if constexpr (is_ex<T>) {
        return x.get();
    } else {
        return expression(static_cast<double>(x)).get();
    }
}
inline expression ex(op o, std::vector<node_ptr> a)
{
    return expression(mk(o, std::move(a)));
}
} // namespace detail

#define KEP3_STANDIN_BINARY(sym, code)                                                                                 \
    template <typename A, typename B>                                                                                  \
        requires detail::operands<A, B>                                                                                \
    inline expression sym(const A &a, const B &b)                                                                      \
    {                                                                                                                  \
        return detail::ex(detail::op::code, {detail::up(a), detail::up(b)});                                           \
    }
KEP3_STANDIN_BINARY(operator+, add)
KEP3_STANDIN_BINARY(operator-, sub)
KEP3_STANDIN_BINARY(operator*, mul)
KEP3_STANDIN_BINARY(operator/, div)
KEP3_STANDIN_BINARY(pow, pow)
KEP3_STANDIN_BINARY(eq, eq)
KEP3_STANDIN_BINARY(neq, neq)
KEP3_STANDIN_BINARY(lt, lt)
KEP3_STANDIN_BINARY(gt, gt)
KEP3_STANDIN_BINARY(lte, lte)
KEP3_STANDIN_BINARY(gte, gte)
#undef KEP3_STANDIN_BINARY
inline expression operator-(const expression &a)
{
    return detail::ex(detail::op::neg, {a.get()});
}
inline expression operator+(const expression &a)
{
    return a;
}
template <detail::operand B>
inline expression &operator+=(expression &a, const B &b)
{
    return a = a + b;
}
template <detail::operand B>
inline expression &operator-=(expression &a, const B &b)
{
    return a = a - b;
}
template <detail::operand B>
inline expression &operator*=(expression &a, const B &b)
{
    return a = a * b;
}
template <detail::operand B>
inline expression &operator/=(expression &a, const B &b)
{
    return a = a / b;
}
#define KEP3_STANDIN_UNARY(f)                                                                                          \
    inline expression f(const expression &a)                                                                           \
    {                                                                                                                  \
        return detail::ex(detail::op::f, {a.get()});                                                                   \
    }
KEP3_STANDIN_UNARY(sqrt)
KEP3_STANDIN_UNARY(sin)
KEP3_STANDIN_UNARY(cos)
KEP3_STANDIN_UNARY(exp)
KEP3_STANDIN_UNARY(log)
#undef KEP3_STANDIN_UNARY
inline expression square(const expression &a)
{
    return a * a;
}
inline expression sum(const std::vector<expression> &v)
{
    expression r(0.);
    bool first = true;
    for (const auto &x : v) {
        r = first ? x : r + x;
        first = false;
    }
    return r;
}
inline expression prod(const std::vector<expression> &v)
{
    expression r(1.);
    for (const auto &x : v) {
        r = r * x;
    }
    return r;
}
template <typename A, typename B>
    requires(detail::operand<A> && detail::operand<B>)
inline expression select(const expression &c, const A &a, const B &b)
{
    return detail::ex(detail::op::select, {c.get(), detail::up(a), detail::up(b)});
}

template <typename... S>
inline std::array<expression, sizeof...(S)> make_vars(const S &...s)
{
    return {expression(std::string(s))...};
}

namespace detail
{
struct par_maker {
    expression operator[](std::uint32_t i) const
    {
        return expression(std::make_shared<const node>(node{op::par, 0, {}, i, {}}));
    }
};
struct prime_maker {
    expression x;
    template <operand E>
    std::pair<expression, expression> operator=(const E &e) &&
    {
        return {std::move(x), expression(up(e))};
    }
};
} // namespace detail
inline namespace literals
{
inline expression operator""_dbl(long double x)
{
    return expression(static_cast<double>(x));
}
inline expression operator""_dbl(unsigned long long x)
{
    return expression(static_cast<double>(x));
}
inline expression operator""_var(const char *s, std::size_t n)
{
    return expression(std::string(s, n));
}
} // namespace literals
inline constexpr detail::par_maker par{};
inline const expression time{detail::mk(detail::op::time, {})};
inline detail::prime_maker prime(const expression &x)
{
    if (x.get()->o != detail::op::var) {
        throw std::invalid_argument("prime() needs a variable");
    }
    return {x};
}

// Steps that integrators may still take in this thread: for harnesses whose arguments may ask for endless flights.
inline std::size_t &standin_steps_left()
{
    thread_local std::size_t n = std::numeric_limits<std::size_t>::max();
    return n;
}
enum class taylor_outcome : std::int64_t { success = -4294967296ll - 1, step_limit = -4294967296ll - 2, time_limit = -4294967296ll - 3, err_nf_state = -4294967296ll - 4, cb_stop = -4294967296ll - 5 };
inline std::ostream &operator<<(std::ostream &s, taylor_outcome o)
{
    return s << "taylor_outcome " << static_cast<long long>(o);
}

enum class var_args : unsigned { vars = 0b001, params = 0b010, time = 0b100, all = 0b111 };

class var_ode_sys
{
public:
    using sys_t = std::vector<std::pair<expression, expression>>;
    var_ode_sys(const sys_t &s, const std::vector<expression> &args, std::uint32_t order = 1) : m_sys(s), m_args(args)
    {
        if (order != 1u) {
            throw std::invalid_argument("stand-in: only first-order variational systems");
        }
        if (args.empty()) {
            throw std::invalid_argument("stand-in: no variational arguments");
        }
        for (std::size_t i = 0; i < args.size(); ++i) {
            for (std::size_t j = 0; j < i; ++j) {
                const auto &a = *args[i].get(), &b = *args[j].get();
                if (a.o == b.o && a.name == b.name && a.idx == b.idx) {
                    throw std::invalid_argument("stand-in: duplicate variational argument");
                }
            }
        }
    }
    var_ode_sys(const sys_t &s, var_args w, std::uint32_t order = 1) : var_ode_sys(s, collect(s, w), order) {}
    [[nodiscard]] const sys_t &get_orig_sys() const
    {
        return m_sys;
    }
    [[nodiscard]] const std::vector<expression> &get_vargs() const
    {
        return m_args;
    }

private:
    static std::vector<expression> collect(const sys_t &s, var_args w)
    {
        std::vector<expression> r;
        if (w == var_args::vars || w == var_args::all) {
            for (const auto &[l, _] : s) {
                r.push_back(l);
            }
        }
        if (w == var_args::params || w == var_args::all) {
            std::map<std::uint32_t, expression> p;
            std::function<void(const detail::node_ptr &)> walk = [&](const detail::node_ptr &n) {
                if (n->o == detail::op::par) {
                    p.emplace(n->idx, expression(n));
                }
                for (const auto &a : n->args) {
                    walk(a);
                }
            };
            for (const auto &[_, e] : s) {
                walk(e.get());
            }
            for (const auto &[_, e] : p) {
                r.push_back(e);
            }
        }
        return r;
    }
    sys_t m_sys;
    std::vector<expression> m_args;
};

namespace kw
{
namespace detail
{
template <int Tag, typename T>
struct arg {
    T value;
};
template <int Tag, typename T>
struct maker {
    arg<Tag, T> operator=(T x) const
    {
        return {std::move(x)};
    }
};
template <int Tag>
struct any_arg {
};
template <int Tag>
struct any_maker {
    template <typename U>
    any_arg<Tag> operator=(U &&) const
    {
        return {};
    }
};
} // namespace detail
inline constexpr detail::maker<0, double> tol{};
inline constexpr detail::maker<1, bool> compact_mode{};
inline constexpr detail::maker<2, std::vector<double>> pars{};
inline constexpr detail::maker<3, double> time{};
inline constexpr detail::maker<4, bool> high_accuracy{};
inline constexpr detail::any_maker<5> max_steps{};
inline constexpr detail::any_maker<6> max_delta_t{};
inline constexpr detail::any_maker<7> parallel_mode{};
inline constexpr detail::maker<8, expression> time_expr{};
inline constexpr detail::maker<9, double> thresh{};
inline constexpr detail::any_maker<10> opt_level{};
} // namespace kw

struct continuous_output {
};
using step_callback = std::function<bool()>;

// Adaptive Taylor integrator, as heyoka's: order and step from the tolerance, dense output on grids.
template <typename T>
class taylor_adaptive
{
    static_assert(std::is_same_v<T, double>);
    using op = detail::op;
    struct ins {
        int o = 0;
        std::int32_t a = -1, b = -1, c = -1;
        double v = 0;
        template <typename Ar>
        void serialize(Ar &ar, unsigned)
        {
            ar & o & a & b & c & v;
        }
    };

public:
    using sys_t = var_ode_sys::sys_t;
    taylor_adaptive() : taylor_adaptive(sys_t{{expression("x"), expression(0.)}}, std::vector<double>{0.}) {}
    template <typename... KW>
    explicit taylor_adaptive(const sys_t &s, std::vector<double> ic, const KW &...k)
    {
        init(s, {}, std::move(ic), k...);
    }
    template <typename... KW>
    explicit taylor_adaptive(const var_ode_sys &s, std::vector<double> ic, const KW &...k)
    {
        m_variational = true;
        init(s.get_orig_sys(), s.get_vargs(), std::move(ic), k...);
    }

    [[nodiscard]] bool is_variational() const
    {
        return m_variational;
    }
    [[nodiscard]] std::uint32_t get_dim() const
    {
        return static_cast<std::uint32_t>(m_state.size());
    }
    [[nodiscard]] std::uint32_t get_n_orig_sv() const
    {
        return static_cast<std::uint32_t>(m_n);
    }
    [[nodiscard]] std::uint32_t get_vorder() const
    {
        need_var();
        return 1;
    }
    [[nodiscard]] const std::vector<expression> &get_vargs() const
    {
        need_var();
        return m_vargs;
    }
    [[nodiscard]] std::uint32_t get_order() const
    {
        return m_order;
    }
    [[nodiscard]] double get_tol() const
    {
        return m_tol;
    }
    [[nodiscard]] bool get_compact_mode() const
    {
        return m_compact;
    }
    [[nodiscard]] bool get_high_accuracy() const
    {
        return m_ha;
    }
    [[nodiscard]] const std::vector<double> &get_state() const
    {
        return m_state;
    }
    [[nodiscard]] const double *get_state_data() const
    {
        return m_state.data();
    }
    double *get_state_data()
    {
        return m_state.data();
    }
    [[nodiscard]] const std::vector<double> &get_pars() const
    {
        return m_pars;
    }
    [[nodiscard]] const double *get_pars_data() const
    {
        return m_pars.data();
    }
    double *get_pars_data()
    {
        return m_pars.data();
    }
    [[nodiscard]] double get_time() const
    {
        return m_time;
    }
    void set_time(double t)
    {
        m_time = t;
    }
    [[nodiscard]] double get_last_h() const
    {
        return m_last_h;
    }

    using until_t = std::tuple<taylor_outcome, double, double, std::size_t, std::optional<continuous_output>, step_callback>;
    using grid_t = std::tuple<taylor_outcome, double, double, std::size_t, step_callback, std::vector<double>>;
    template <typename... KW>
    until_t propagate_for(double dt, const KW &...k)
    {
        return propagate_until(m_time + dt, k...);
    }
    template <typename... KW>
    until_t propagate_until(double t, const KW &...)
    {
        if (!std::isfinite(t) || !std::isfinite(m_time)) {
            throw std::invalid_argument("stand-in: non finite time in propagate_until()");
        }
        double mn = std::numeric_limits<double>::infinity(), mx = 0;
        std::size_t n = 0;
        workspace w;
        while (m_time != t) {
            if (!step(t, w)) {
                return {taylor_outcome::err_nf_state, mn, mx, n, {}, {}};
            }
            ++n;
            mn = std::min(mn, std::abs(m_last_h)), mx = std::max(mx, std::abs(m_last_h));
        }
        return {taylor_outcome::time_limit, mn, mx, n, {}, {}};
    }
    template <typename... KW>
    grid_t propagate_grid(const std::vector<double> &g, const KW &...)
    {
        if (g.empty()) {
            throw std::invalid_argument("stand-in: empty grid in propagate_grid()");
        }
        for (std::size_t i = 0; i < g.size(); ++i) {
            if (!std::isfinite(g[i])) {
                throw std::invalid_argument("stand-in: non finite value in the grid of propagate_grid()");
            }
            if (i >= 1 && (g[i] == g[i - 1] || (g[i] > g[i - 1]) != (g[1] > g[0]))) {
                throw std::invalid_argument("stand-in: the grid of propagate_grid() is not monotonic");
            }
        }
        grid_t ret{taylor_outcome::time_limit, std::numeric_limits<double>::infinity(), 0., 0u, {}, {}};
        auto &out = std::get<5>(ret);
        auto first = propagate_until(g[0]);
        if (std::get<0>(first) != taylor_outcome::time_limit) {
            std::get<0>(ret) = std::get<0>(first);
            return ret;
        }
        out.insert(out.end(), m_state.begin(), m_state.end());
        workspace w;
        std::size_t i = 1;
        while (i < g.size()) {
            double t0 = m_time;
            if (!step(g.back(), w)) {
                std::get<0>(ret) = taylor_outcome::err_nf_state;
                return ret;
            }
            ++std::get<3>(ret);
            std::get<1>(ret) = std::min(std::get<1>(ret), std::abs(m_last_h));
            std::get<2>(ret) = std::max(std::get<2>(ret), std::abs(m_last_h));
            bool fwd = g[1] > g[0];
            while (i < g.size() && (fwd ? g[i] <= m_time : g[i] >= m_time)) {
                if (g[i] == m_time) {
                    out.insert(out.end(), m_state.begin(), m_state.end());
                } else {
                    auto s = eval(w, g[i] - t0);
                    out.insert(out.end(), s.begin(), s.end());
                }
                ++i;
            }
        }
        return ret;
    }

private:
    struct workspace {
        std::vector<double> j; // [instruction][direction][order]
        double t0 = 0;
    };
    void need_var() const
    {
        if (!m_variational) {
            throw std::invalid_argument("stand-in: not a variational integrator");
        }
    }
    void set(const kw::detail::arg<0, double> &x)
    {
        m_tol = x.value;
    }
    void set(const kw::detail::arg<1, bool> &x)
    {
        m_compact = x.value;
    }
    void set(const kw::detail::arg<2, std::vector<double>> &x)
    {
        m_pars = x.value;
    }
    void set(const kw::detail::arg<3, double> &x)
    {
        m_time = x.value;
    }
    void set(const kw::detail::arg<4, bool> &x)
    {
        m_ha = x.value;
    }
    template <int N>
    void set(const kw::detail::any_arg<N> &)
    {
    }

    template <typename... KW>
    void init(const sys_t &s, const std::vector<expression> &args, std::vector<double> ic, const KW &...k)
    {
        (set(k), ...);
        if (!std::isfinite(m_tol) || m_tol < 0) {
            throw std::invalid_argument("stand-in: the tolerance must be finite and not negative");
        }
        if (m_tol == 0) {
            m_tol = std::numeric_limits<double>::epsilon();
        }
        m_order = std::max<std::uint32_t>(2, static_cast<std::uint32_t>(std::max(0., std::ceil(-std::log(m_tol) / 2 + 1))));
        m_n = s.size();
        m_vargs = args;
        std::map<std::string, std::int32_t> vars;
        for (std::size_t i = 0; i < s.size(); ++i) {
            const auto &l = *s[i].first.get();
            if (l.o != op::var || !vars.emplace(l.name, static_cast<std::int32_t>(i)).second) {
                throw std::invalid_argument("stand-in: the left-hand sides must be distinct variables");
            }
            m_names.push_back(l.name);
        }
        // The first instructions are the state variables.
        for (std::size_t i = 0; i < m_n; ++i) {
            m_tape.push_back({static_cast<int>(op::var), static_cast<std::int32_t>(i), -1, -1, 0});
        }
        std::unordered_map<const detail::node *, std::int32_t> memo;
        std::size_t npars = 0;
        std::function<std::int32_t(const detail::node_ptr &)> emit = [&](const detail::node_ptr &n) -> std::int32_t {
            if (auto it = memo.find(n.get()); it != memo.end()) {
                return it->second;
            }
            ins x;
            x.o = static_cast<int>(n->o);
            std::int32_t id = -1;
            if (n->o == op::var) {
                auto it = vars.find(n->name);
                if (it == vars.end()) {
                    throw std::invalid_argument("stand-in: unknown variable " + n->name);
                }
                id = it->second;
            } else {
                if (n->o == op::num) {
                    x.v = n->val;
                } else if (n->o == op::par) {
                    x.a = static_cast<std::int32_t>(n->idx);
                    npars = std::max<std::size_t>(npars, n->idx + 1u);
                } else {
                    std::int32_t *slot[] = {&x.a, &x.b, &x.c};
                    for (std::size_t i = 0; i < n->args.size(); ++i) {
                        *slot[i] = emit(n->args[i]);
                    }
                }
                m_tape.push_back(x);
                id = static_cast<std::int32_t>(m_tape.size()) - 1;
            }
            memo.emplace(n.get(), id);
            return id;
        };
        for (const auto &[l, r] : s) {
            m_rhs.push_back(emit(r.get()));
        }
        for (const auto &a : args) {
            const auto &n = *a.get();
            if (n.o == op::var) {
                auto it = vars.find(n.name);
                if (it == vars.end()) {
                    throw std::invalid_argument("stand-in: unknown variational argument " + n.name);
                }
                m_dirs.emplace_back(0, it->second);
            } else if (n.o == op::par) {
                npars = std::max<std::size_t>(npars, n.idx + 1u);
                m_dirs.emplace_back(1, static_cast<std::int32_t>(n.idx));
            } else {
                throw std::invalid_argument("stand-in: invalid variational argument");
            }
        }
        if (m_pars.size() > npars) {
            throw std::invalid_argument("stand-in: too many parameter values");
        }
        m_pars.resize(npars, 0.);
        std::size_t D = m_dirs.size(), full = m_n * (1 + D);
        if (ic.size() != m_n && ic.size() != full) {
            throw std::invalid_argument("stand-in: initial conditions of the wrong size");
        }
        bool identity = ic.size() == m_n && D > 0;
        ic.resize(full, 0.);
        if (identity) {
            for (std::size_t d = 0; d < D; ++d) {
                if (m_dirs[d].first == 0) {
                    ic[m_n + D * static_cast<std::size_t>(m_dirs[d].second) + d] = 1.;
                }
            }
        }
        m_state = std::move(ic);
    }

    // Taylor coefficients of the state up to the order, at the current time.
    void jets(workspace &w) const
    {
        const std::size_t P = m_order + 1u, D = 1 + m_dirs.size(), N = m_tape.size();
        w.j.assign(N * D * P, 0.);
        auto J = [&](std::int32_t i, std::size_t d) { return &w.j[(static_cast<std::size_t>(i) * D + d) * P]; };
        for (std::size_t i = 0; i < m_n; ++i) {
            J(static_cast<std::int32_t>(i), 0)[0] = m_state[i];
            for (std::size_t d = 1; d < D; ++d) {
                J(static_cast<std::int32_t>(i), d)[0] = m_state[m_n + (D - 1) * i + d - 1];
            }
        }
        std::vector<double> f(m_n * D);
        for (std::size_t k = 0; k < P; ++k) {
            for (std::size_t id = m_n; id < N; ++id) {
                const auto &x = m_tape[id];
                auto self = static_cast<std::int32_t>(id);
                double *r = J(self, 0);
                const double *a = x.a >= 0 && x.o >= static_cast<int>(op::add) ? J(x.a, 0) : nullptr;
                const double *b = x.b >= 0 ? J(x.b, 0) : nullptr;
                auto conv = [k](const double *p, const double *q, std::size_t from, std::size_t to) {
                    double s = 0; // sum of p[i] q[k-i]
                    for (std::size_t i = from; i < to; ++i) {
                        s += p[i] * q[k - i];
                    }
                    return s;
                };
                switch (static_cast<op>(x.o)) {
                    case op::num:
                        r[k] = k == 0 ? x.v : 0.;
                        break;
                    case op::par:
                        r[k] = k == 0 ? m_pars[static_cast<std::size_t>(x.a)] : 0.;
                        if (k == 0) {
                            for (std::size_t d = 1; d < D; ++d) {
                                J(self, d)[0] = m_dirs[d - 1].first == 1 && m_dirs[d - 1].second == x.a ? 1. : 0.;
                            }
                        }
                        break;
                    case op::time:
                        r[k] = k == 0 ? m_time : k == 1 ? 1. : 0.;
                        break;
                    case op::add:
                    case op::sub: {
                        double s = static_cast<op>(x.o) == op::add ? 1. : -1.;
                        for (std::size_t d = 0; d < D; ++d) {
                            J(self, d)[k] = J(x.a, d)[k] + s * J(x.b, d)[k];
                        }
                        break;
                    }
                    case op::neg:
                        for (std::size_t d = 0; d < D; ++d) {
                            J(self, d)[k] = -J(x.a, d)[k];
                        }
                        break;
                    case op::mul:
                        r[k] = conv(a, b, 0, k + 1);
                        for (std::size_t d = 1; d < D; ++d) {
                            J(self, d)[k] = conv(J(x.a, d), b, 0, k + 1) + conv(a, J(x.b, d), 0, k + 1);
                        }
                        break;
                    case op::div:
                        r[k] = (a[k] - conv(r, b, 0, k)) / b[0];
                        for (std::size_t d = 1; d < D; ++d) {
                            const double *db = J(x.b, d);
                            double *dr = J(self, d);
                            dr[k] = (J(x.a, d)[k] - conv(r, db, 0, k + 1) - conv(dr, b, 0, k)) / b[0];
                        }
                        break;
                    case op::sqrt: {
                        if (k == 0) {
                            r[0] = std::sqrt(a[0]);
                        } else if (a[0] == 0) {
                            r[k] = 0; // constant zero (an identically zero argument)
                        } else {
                            r[k] = (a[k] - conv(r, r, 1, k)) / (2 * r[0]);
                        }
                        for (std::size_t d = 1; d < D; ++d) {
                            double *dr = J(self, d);
                            // 2 r dr = da
                            dr[k] = (J(x.a, d)[k] / 2 - conv(dr, r, 0, k)) / r[0];
                        }
                        break;
                    }
                    case op::pow: {
                        const auto &e = m_tape[static_cast<std::size_t>(x.b)];
                        if (static_cast<op>(e.o) != op::num) {
                            throw std::invalid_argument("stand-in: only constant exponents");
                        }
                        double p = e.v;
                        if (p == 2) {
                            r[k] = conv(a, a, 0, k + 1);
                            for (std::size_t d = 1; d < D; ++d) {
                                J(self, d)[k] = 2 * conv(a, J(x.a, d), 0, k + 1);
                            }
                            break;
                        }
                        if (k == 0) {
                            r[0] = std::pow(a[0], p);
                        } else {
                            double s = 0;
                            for (std::size_t i = 0; i < k; ++i) {
                                s += (static_cast<double>(k - i) * p - static_cast<double>(i)) * a[k - i] * r[i];
                            }
                            r[k] = s / (static_cast<double>(k) * a[0]);
                        }
                        for (std::size_t d = 1; d < D; ++d) {
                            double *dr = J(self, d);
                            // a dr = p r da
                            dr[k] = (p * conv(r, J(x.a, d), 0, k + 1) - conv(dr, a, 0, k)) / a[0];
                        }
                        break;
                    }
                    case op::select: {
                        const double *cd = a;
                        std::int32_t t = cd[0] != 0 ? x.b : x.c, u = cd[0] != 0 ? x.c : x.b;
                        r[k] = J(t, 0)[k];
                        for (std::size_t d = 1; d < D; ++d) {
                            // A derivative that does not exist on either branch does not exist.
                            J(self, d)[k] = J(t, d)[k] + (std::isnan(J(u, d)[k]) ? std::numeric_limits<double>::quiet_NaN() : 0.);
                        }
                        break;
                    }
                    case op::eq:
                    case op::neq:
                    case op::lt:
                    case op::gt:
                    case op::lte:
                    case op::gte:
                        if (k == 0) {
                            bool y = false;
                            switch (static_cast<op>(x.o)) {
                                case op::eq:
                                    y = a[0] == b[0];
                                    break;
                                case op::neq:
                                    y = a[0] != b[0];
                                    break;
                                case op::lt:
                                    y = a[0] < b[0];
                                    break;
                                case op::gt:
                                    y = a[0] > b[0];
                                    break;
                                case op::lte:
                                    y = a[0] <= b[0];
                                    break;
                                default:
                                    y = a[0] >= b[0];
                            }
                            r[0] = y ? 1. : 0.;
                        }
                        break;
                    default:
                        throw std::invalid_argument("stand-in: function not available in differential equations");
                }
            }
            for (std::size_t i = 0; i < m_n && k + 1 < P; ++i) {
                for (std::size_t d = 0; d < D; ++d) {
                    J(static_cast<std::int32_t>(i), d)[k + 1] = J(m_rhs[i], d)[k] / static_cast<double>(k + 1);
                }
            }
        }
    }
    std::vector<double> eval(const workspace &w, double h) const
    {
        const std::size_t P = m_order + 1u, D = 1 + m_dirs.size();
        std::vector<double> s(m_state.size());
        for (std::size_t i = 0; i < m_n; ++i) {
            for (std::size_t d = 0; d < D; ++d) {
                const double *c = &w.j[(i * D + d) * P];
                double v = c[P - 1];
                for (std::size_t k = P - 1; k-- > 0;) {
                    v = c[k] + v * h;
                }
                s[d == 0 ? i : m_n + (D - 1) * i + d - 1] = v;
            }
        }
        return s;
    }
    // One step towards t at most. False if the state is not finite (any more).
    bool step(double t, workspace &w)
    {
        if (standin_steps_left() == 0u) {
            throw std::runtime_error("stand-in: too many steps");
        }
        --standin_steps_left();
        jets(w);
        const std::size_t P = m_order + 1u, D = 1 + m_dirs.size();
        double n0 = 0, n1 = 0, n2 = 0;
        bool nan = false;
        for (std::size_t i = 0; i < m_n * D; ++i) {
            const double *c = &w.j[i * P];
            for (std::size_t k = 0; k < P; ++k) {
                nan = nan || !std::isfinite(c[k]);
            }
            n0 = std::max(n0, std::abs(c[0]));
            n1 = std::max(n1, std::abs(c[P - 2]));
            n2 = std::max(n2, std::abs(c[P - 1]));
        }
        if (nan) {
            return false;
        }
        double num = n0 <= 1 ? 1. : n0;
        auto p = static_cast<double>(P - 1);
        double r1 = n1 == 0 ? std::numeric_limits<double>::infinity() : std::pow(num / n1, 1. / (p - 1)), r2 = n2 == 0 ? std::numeric_limits<double>::infinity() : std::pow(num / n2, 1. / p);
        double h = std::min(r1, r2) * std::exp(-2.) * std::exp(-0.7 / (p - 1));
        if (!(h > 0)) {
            return false;
        }
        double left = t - m_time;
        bool last = h >= std::abs(left);
        h = last ? left : std::copysign(h, left);
        if (!last && m_time + h == m_time) {
            return false;
        }
        m_state = eval(w, h);
        m_last_h = h;
        m_time = last ? t : m_time + h;
        for (double x : m_state) {
            if (!std::isfinite(x)) {
                return false;
            }
        }
        return true;
    }

    friend class boost::serialization::access;
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        std::vector<std::string> va;
        for (const auto &a : m_vargs) {
            va.push_back(a.get()->o == op::var ? a.get()->name : "p" + std::to_string(a.get()->idx));
        }
        ar & m_tape & m_rhs & m_dirs & m_names & m_n & m_state & m_pars & m_time & m_tol & m_last_h & m_order & m_variational & m_compact & m_ha & va;
        if constexpr (Ar::is_loading::value) {
            m_vargs.clear();
            for (const auto &d : m_dirs) {
                m_vargs.push_back(d.first == 0 ? expression(m_names[static_cast<std::size_t>(d.second)]) : par[static_cast<std::uint32_t>(d.second)]);
            }
        }
    }

    std::vector<ins> m_tape;
    std::vector<std::int32_t> m_rhs;
    std::vector<std::pair<int, std::int32_t>> m_dirs; // 0: variable, 1: parameter
    std::vector<std::string> m_names;
    std::vector<expression> m_vargs;
    std::size_t m_n = 0;
    std::vector<double> m_state, m_pars;
    double m_time = 0, m_tol = std::numeric_limits<double>::epsilon(), m_last_h = 0;
    std::uint32_t m_order = 0;
    bool m_variational = false, m_compact = false, m_ha = false;
};

} // namespace heyoka
