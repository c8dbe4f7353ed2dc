// A small, seed-driven property-based testing engine with integrated shrinking.
//
// A case is a sequence of 64-bit choices. A property is a function that draws from the sequence (ints, reals, picks),
// runs the code under test and reports through the Case object. Random mode fills the sequence from a PRNG seeded by
// (VERIF_SEED, test name, case index); replay mode and the libFuzzer target feed a recorded one. Shrinking edits the
// recorded sequence, so that every generator shrinks without code of its own.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline std::uint64_t hash_str(const std::string &s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

struct Failure {
    std::string msg;
};
// Every tolerance is a rounding-error bound times this factor, so that another order of the same operations passes.
constexpr double slack = 4.;
struct Discard {
};

std::function<void(const char *)> &commit_hook();

class Case
{
public:
    // All choices are drawn: from here on the process may end without notice, for the reason given.
    void commit(const char *why)
    {
        if (commit_hook()) {
            commit_hook()(why);
        }
    }
    // Random case.
    explicit Case(std::uint64_t seed) : m_state(seed), m_random(true) {}
    // Replayed case (missing choices are zero).
    explicit Case(std::vector<std::uint64_t> ch) : m_choices(std::move(ch)), m_random(false) {}

    std::uint64_t u64()
    {
        std::uint64_t r = 0;
        if (m_pos < m_choices.size()) {
            r = m_choices[m_pos];
        } else if (m_random) {
            m_state += 0x9e3779b97f4a7c15ULL;
            r = mix(m_state);
            m_choices.push_back(r);
        } else {
            m_choices.push_back(0);
        }
        ++m_pos;
        return r;
    }
    // Uniform in [0,1).
    double unit()
    {
        return static_cast<double>(u64() >> 11) * 0x1.0p-53;
    }
    // Uniform integer in [lo,hi].
    long integer(long lo, long hi)
    {
        auto range = static_cast<std::uint64_t>(hi - lo) + 1u;
        // Use the high bits: simple choices map to lo.
        auto v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(u64()) * range) >> 64);
        return lo + static_cast<long>(v);
    }
    double real(double lo, double hi)
    {
        double v = lo + (hi - lo) * unit();
        return v > hi ? hi : v;
    }
    double logreal(double lo, double hi)
    {
        return std::exp(real(std::log(lo), std::log(hi)));
    }
    double sign()
    {
        return (u64() >> 63) ? -1. : 1.;
    }
    bool chance(double p)
    {
        // The simple outcome (choice zero) is false.
        return unit() >= 1. - p;
    }
    template <typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + integer(0, static_cast<long>(l.size()) - 1));
    }
    template <typename T>
    const T &pickv(const std::vector<T> &l)
    {
        return l[static_cast<std::size_t>(integer(0, static_cast<long>(l.size()) - 1))];
    }

    // Reporting.
    void label(const std::string &l)
    {
        m_labels.push_back(l);
    }
    void nontrivial(bool b = true)
    {
        m_nontrivial = m_nontrivial || b;
    }
    [[noreturn]] void discard()
    {
        throw Discard{};
    }
    [[noreturn]] void fail(const std::string &msg)
    {
        throw Failure{msg};
    }
    void check(bool ok, const std::string &msg)
    {
        if (!ok) {
            fail(msg);
        }
    }
    // |got-ref| <= tol. NaN fails. The worst ratio per name is kept for the evidence.
    void close(const std::string &name, double got, double ref, double tol)
    {
        double d = std::abs(got - ref);
        ratio(name, d, tol, [&]() {
            std::ostringstream s;
            s.precision(17);
            s << name << ": got " << got << ", expected " << ref;
            return s.str();
        });
    }
    template <typename F>
    void ratio(const std::string &name, double d, double tol, F &&describe)
    {
        double r = d == 0. ? 0. : d / (slack * tol);
        if (!(r <= 1.) && lenient()) {
            m_metrics.emplace_back(name, r == r ? r : 1e300);
            return;
        }
        if (!(r <= 1.)) {
            std::ostringstream s;
            s.precision(6);
            s << describe() << " (difference " << d << ", allowed " << tol << ")";
            fail(s.str());
        }
        m_metrics.emplace_back(name, r);
    }
    void ratio(const std::string &name, double d, double tol)
    {
        ratio(name, d, tol, [&]() { return name; });
    }
    // A human readable description of the case.
    template <typename T>
    void show(const std::string &k, const T &v)
    {
        if (!m_describe) {
            return;
        }
        std::ostringstream s;
        s.precision(17);
        put(s, v);
        m_desc += (m_desc.empty() ? "" : ", ") + k + "=" + s.str();
        if (!m_describe_file.empty()) { // the case may crash: what is known so far
            std::ofstream(m_describe_file) << m_desc;
        }
    }
    template <typename T>
    static void put(std::ostream &s, const T &v)
    {
        if constexpr (requires { v.begin(); v.size(); } && !std::is_same_v<T, std::string>) {
            s << "[";
            bool first = true;
            for (const auto &x : v) {
                if (!first) {
                    s << ", ";
                }
                first = false;
                put(s, x);
            }
            s << "]";
        } else if constexpr (std::is_same_v<T, std::string>) {
            for (unsigned char ch : v) {
                if (ch >= 32 && ch < 127) {
                    s << ch;
                } else {
                    s << "\\x" << "0123456789abcdef"[ch >> 4] << "0123456789abcdef"[ch & 15];
                }
            }
        } else if constexpr (std::is_same_v<T, bool>) {
            s << (v ? "true" : "false");
        } else {
            s << v;
        }
    }
    static bool &lenient()
    {
        static bool l = std::getenv("PBT_LENIENT") != nullptr; // calibration only: ratios are recorded, not enforced
        return l;
    }

    std::vector<std::uint64_t> m_choices;
    std::size_t m_pos = 0;
    std::uint64_t m_state = 0;
    bool m_random;
    bool m_nontrivial = false;
    bool m_describe = false;
    std::string m_desc, m_describe_file;
    std::vector<std::string> m_labels;
    std::vector<std::pair<std::string, double>> m_metrics;
};

using Prop = std::function<void(Case &)>;

struct Test {
    std::string property; // the id in properties.jsonl
    std::string name;
    Prop fn;
    long quick;    // number of cases, quick tier
    long thorough; // number of cases, thorough tier
    std::string rule;
};

std::vector<Test> &registry();

struct Reg {
    Reg(const char *property, const char *name, long quick, long thorough, const char *rule, Prop fn)
    {
        registry().push_back({property, name, std::move(fn), quick, thorough, rule});
    }
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP("C01", "name", quick, thorough, "what counts as non-trivial") { ... body using Case &c ... }
#define PROP(prop, name, quick, thorough, rule)                                                                        \
    static void PBT_CAT(prop_fn_, __LINE__)(pbt::Case & c);                                                            \
    static const pbt::Reg PBT_CAT(prop_reg_, __LINE__)(prop, name, quick, thorough, rule,                              \
                                                       &PBT_CAT(prop_fn_, __LINE__));                                  \
    static void PBT_CAT(prop_fn_, __LINE__)([[maybe_unused]] pbt::Case & c)
