// Stand-in for <fmt/chrono.h>. kep3 needs fmt >= 10, where a time point is formatted in UTC with its sub-seconds; the
// installed fmt 9.1 uses local time and drops them. This implements the formatting of fmt >= 10 for the time points and
// durations kep3 formats, and nothing else.
#pragma once
#include <chrono>
#include <cstdint>
#include <ctime>
#include <string>
#include <string_view>

#include <fmt/core.h>
#include <fmt/format.h>

namespace kep3_shim
{
struct civil {
    std::int64_t y;
    int m, d, yday, wday;
};
// Days since 1970-01-01 to a proleptic Gregorian date, by counting from 0000-03-01.
inline civil from_days(std::int64_t z)
{
    auto fdiv = [](std::int64_t a, std::int64_t b) { return a / b - ((a % b != 0 && (a % b < 0) != (b < 0)) ? 1 : 0); };
    civil o{};
    o.wday = static_cast<int>(((z + 4) % 7 + 7) % 7);
    std::int64_t n = z + 719468;
    std::int64_t era = fdiv(n, 146097), doe = n - era * 146097;
    std::int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    std::int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    o.d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
    o.m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
    o.y = yoe + era * 400 + (o.m <= 2 ? 1 : 0);
    bool leap = (o.y % 4 == 0 && o.y % 100 != 0) || o.y % 400 == 0;
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    o.yday = cum[o.m - 1] + o.d - 1 + (o.m > 2 && leap ? 1 : 0);
    return o;
}
inline std::string year(std::int64_t y)
{
    return y < 0 ? "-" + fmt::format("{:04}", -y) : fmt::format("{:04}", y);
}
// frac: number of sub-second digits of the duration.
inline std::string put(std::string_view spec, std::int64_t days, std::int64_t sec, std::int64_t sub, int frac)
{
    auto c = from_days(days);
    auto h = sec / 3600, mi = sec / 60 % 60, s = sec % 60;
    std::string secs = frac > 0 ? fmt::format("{:02}.{:0{}}", s, sub, frac) : fmt::format("{:02}", s);
    std::string o;
    if (spec.empty()) {
        spec = "%F %T";
    }
    for (std::size_t i = 0; i < spec.size(); ++i) {
        if (spec[i] != '%' || i + 1 == spec.size()) {
            o += spec[i];
            continue;
        }
        switch (spec[++i]) {
            case 'F':
                o += fmt::format("{}-{:02}-{:02}", year(c.y), c.m, c.d);
                break;
            case 'T':
                o += fmt::format("{:02}:{:02}:{}", h, mi, secs);
                break;
            case 'R':
                o += fmt::format("{:02}:{:02}", h, mi);
                break;
            case 'D':
                o += fmt::format("{:02}/{:02}/{:02}", c.m, c.d, ((c.y % 100) + 100) % 100);
                break;
            case 'Y':
                o += year(c.y);
                break;
            case 'm':
                o += fmt::format("{:02}", c.m);
                break;
            case 'd':
                o += fmt::format("{:02}", c.d);
                break;
            case 'e':
                o += fmt::format("{:2}", c.d);
                break;
            case 'y':
                o += fmt::format("{:02}", ((c.y % 100) + 100) % 100);
                break;
            case 'H':
                o += fmt::format("{:02}", h);
                break;
            case 'M':
                o += fmt::format("{:02}", mi);
                break;
            case 'S':
                o += secs;
                break;
            case 'j':
                o += fmt::format("{:03}", c.yday + 1);
                break;
            case 'Z':
                o += "UTC";
                break;
            case 'z':
                o += "+0000";
                break;
            case 'n':
                o += '\n';
                break;
            case 't':
                o += '\t';
                break;
            case '%':
                o += '%';
                break;
            default:
                throw fmt::format_error("unsupported time format");
        }
    }
    return o;
}
constexpr int digits(std::intmax_t den)
{
    int n = 0;
    for (; den > 1; den /= 10) {
        ++n;
    }
    return n;
}
struct spec_parser {
    std::string_view spec;
    constexpr auto parse(fmt::format_parse_context &ctx)
    {
        auto b = ctx.begin(), e = ctx.end();
        while (b != e && *b != '}') {
            ++b;
        }
        spec = std::string_view(ctx.begin(), static_cast<std::size_t>(b - ctx.begin()));
        return b;
    }
    template <typename Out>
    Out emit(Out out, const std::string &s) const
    {
        for (char ch : s) {
            *out++ = ch;
        }
        return out;
    }
};
template <typename D>
std::string put_duration(std::string_view spec, D d)
{
    using namespace std::chrono;
    using whole = duration<std::int64_t>;
    auto s = floor<whole>(d);
    auto days = floor<duration<std::int64_t, std::ratio<86400>>>(s);
    auto rest = duration_cast<whole>(s - days).count();
    auto sub = (d - s).count();
    return put(spec, days.count(), rest, static_cast<std::int64_t>(sub), digits(D::period::den));
}
} // namespace kep3_shim

FMT_BEGIN_NAMESPACE
template <typename Rep, typename Period>
struct formatter<std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<Rep, Period>>, char>
    : kep3_shim::spec_parser {
    template <typename T, typename C>
    auto format(const T &t, C &ctx) const
    {
        return emit(ctx.out(), kep3_shim::put_duration(spec, t.time_since_epoch()));
    }
};
template <>
struct formatter<std::tm, char> : kep3_shim::spec_parser {
    template <typename C>
    auto format(const std::tm &t, C &ctx) const
    {
        using namespace std::chrono;
        auto d = sys_days(std::chrono::year(t.tm_year + 1900) / std::chrono::month(static_cast<unsigned>(t.tm_mon + 1)) / t.tm_mday);
        return emit(ctx.out(), kep3_shim::put(spec, d.time_since_epoch().count(), t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec, 0, 0));
    }
};
template <typename D>
inline std::tm gmtime(std::chrono::time_point<std::chrono::system_clock, D> tp)
{
    auto s = std::chrono::floor<std::chrono::seconds>(tp);
    auto d = std::chrono::floor<std::chrono::duration<std::int64_t, std::ratio<86400>>>(s);
    auto c = kep3_shim::from_days(d.time_since_epoch().count());
    auto r = static_cast<int>((s - d).count());
    std::tm o{};
    o.tm_year = static_cast<int>(c.y - 1900), o.tm_mon = c.m - 1, o.tm_mday = c.d, o.tm_wday = c.wday, o.tm_yday = c.yday;
    o.tm_hour = r / 3600, o.tm_min = r / 60 % 60, o.tm_sec = r % 60;
    return o;
}
inline std::tm gmtime(std::time_t t)
{
    return gmtime(std::chrono::system_clock::from_time_t(t));
}
FMT_END_NAMESPACE
