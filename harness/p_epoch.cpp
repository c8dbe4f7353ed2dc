// K16, K17: dates and durations.
#include <cstdlib>
#include <ctime>
#include <sstream>
#include <stdexcept>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>

#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/epoch.hpp>

#include "gen.hpp"

using kep3::epoch;
using pbt::Case;
using i64 = std::int64_t;
using us_t = kep3::microseconds;
constexpr double eps = 2.220446049250313e-16;

namespace
{
constexpr i64 day_us = 86400LL * 1000000, unix_2000 = 10957LL * day_us;

// A time zone far from UTC: dates must not depend on it.
const bool tz_set = []() {
    setenv("TZ", "XYZ-05:30", 1);
    tzset();
    return true;
}();

bool leap(i64 y)
{
    return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
int month_len(i64 y, int m)
{
    static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : l[m - 1];
}
i64 fdiv(i64 a, i64 b)
{
    return a / b - ((a % b != 0 && (a % b < 0) != (b < 0)) ? 1 : 0);
}
// Days from 2000-01-01 to the first of January of y, then along the months.
i64 days_2000(i64 y, int m, i64 d)
{
    auto before = [](i64 yy) { return 365 * (yy - 1) + fdiv(yy - 1, 4) - fdiv(yy - 1, 100) + fdiv(yy - 1, 400); };
    i64 n = before(y) - before(2000);
    for (int k = 1; k < m; ++k) {
        n += month_len(y, k);
    }
    return n + d - 1;
}
i64 us_2000(const epoch &e)
{
    return e.get_tp().time_since_epoch().count() - unix_2000;
}
epoch from_us(i64 us)
{
    return epoch(kep3::time_point(us_t(us + unix_2000)));
}
struct Date {
    i64 y;
    int m, d, h, mi, s, us;
    [[nodiscard]] i64 count() const
    {
        return days_2000(y, m, d) * day_us + ((h * 60LL + mi) * 60 + s) * 1000000 + us;
    }
    [[nodiscard]] std::string iso() const
    {
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%06d", static_cast<int>(y), m, d, h, mi, s, us);
        return b;
    }
};
Date date(Case &c)
{
    Date o{};
    switch (c.integer(0, 4)) {
        case 0:
            o.y = c.pick({1600, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2038, 2100, 2400, 1, 9999});
            break;
        case 1:
            o.y = c.integer(1, 9999);
            break;
        default:
            o.y = c.integer(1800, 2200);
    }
    o.m = static_cast<int>(c.integer(1, 12));
    if (c.chance(0.2)) {
        o.m = c.pick({1, 2, 2, 3, 12});
    }
    int len = month_len(o.y, o.m);
    o.d = static_cast<int>(c.integer(1, len));
    if (c.chance(0.3)) {
        o.d = c.chance(0.5) ? len : 1;
    }
    switch (c.integer(0, 3)) {
        case 0:
            break;
        case 1:
            o.h = 23, o.mi = 59, o.s = 59, o.us = c.pick({999999, 0, 999000, 500000});
            break;
        default:
            o.h = static_cast<int>(c.integer(0, 23)), o.mi = static_cast<int>(c.integer(0, 59)), o.s = static_cast<int>(c.integer(0, 59));
            o.us = c.chance(0.3) ? c.pick({1, 10, 100, 1000, 99999, 100000, 121841}) : static_cast<int>(c.integer(0, 999999));
    }
    return o;
}
template <typename E, typename F>
bool throws(F &&f)
{
    try {
        f();
    } catch (const E &) {
        return true;
    } catch (...) {
    }
    return false;
}
template <typename F>
bool any_error(F &&f)
{
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
// Days as seen by the getters: a microsecond count divided once.
void getters(Case &c, const epoch &e, i64 us)
{
    auto days = [&](i64 off) { return static_cast<double>(static_cast<long double>(us + off) / day_us); };
    double a = days(0), b = days(51544 * day_us), d = days(2451544 * day_us + day_us / 2);
    c.close("mjd2000", e.mjd2000(), a, eps * std::abs(a));
    c.close("mjd", e.mjd(), b, eps * std::abs(b));
    c.close("jd", e.jd(), d, eps * std::abs(d));
}
} // namespace

PROP("K16", "calendar_dates", 200000, 4000000, "a day of year other than the first of January, or a time of day")
{
    auto t = date(c);
    c.show("date", t.iso());
    int ms = t.us / 1000, us = t.us % 1000;
    switch (c.integer(0, 4)) {
        case 4: { // components of any size
            auto any = [&]() { return static_cast<int>(c.sign() * c.logreal(1., 2147483647.)); };
            t.h = any(), t.mi = any(), t.s = any(), ms = any(), us = any();
            t.us = 0;
            c.show("components", std::to_string(t.h) + ":" + std::to_string(t.mi) + ":" + std::to_string(t.s) + "." + std::to_string(ms) + "." + std::to_string(us));
            c.label("huge components");
            break;
        }
        case 0:
            ms = 0, us = t.us;
            break;
        case 1: // components past their range carry over
            t.h += static_cast<int>(c.integer(-5000, 5000)), t.mi += static_cast<int>(c.integer(-5000, 5000)), t.s += static_cast<int>(c.integer(-100000, 100000));
            c.label("components out of range");
            break;
        default:
            break;
    }
    epoch e(static_cast<int>(t.y), static_cast<unsigned>(t.m), static_cast<unsigned>(t.d), t.h, t.mi, t.s, ms, us);
    i64 want = t.count() - t.us + 1000LL * ms + us;
    c.check(us_2000(e) == want, "the date is " + std::to_string(us_2000(e)) + " us from 2000-01-01, expected " + std::to_string(want));
    getters(c, e, want);
    if (t.h == 0 && t.mi == 0 && t.s == 0 && t.us == 0) {
        epoch f(static_cast<int>(t.y), static_cast<unsigned>(t.m), static_cast<unsigned>(t.d));
        c.check(f == e, "a date without time is not midnight");
    }
    // A day past the end of its month is a day of the next one.
    int len = month_len(t.y, t.m);
    if (len < 31) {
        int d2 = static_cast<int>(c.integer(len + 1, 31));
        epoch g(static_cast<int>(t.y), static_cast<unsigned>(t.m), static_cast<unsigned>(d2));
        c.check(us_2000(g) == (days_2000(t.y, t.m, 1) + d2 - 1) * day_us, "a day past the end of the month is not carried over");
    }
    c.nontrivial(t.m > 1 || t.d > 1 || t.h != 0);
}

PROP("K16", "impossible_dates", 50000, 500000, "always: an impossible month, day or year")
{
    auto t = date(c);
    int y = static_cast<int>(t.y);
    auto m = static_cast<unsigned>(t.m), d = static_cast<unsigned>(t.d);
    auto big = [&](unsigned top) -> unsigned {
        switch (c.integer(0, 3)) {
            case 0:
                return 0;
            case 1:
                return top + 1;
            case 2:
                return 256u * static_cast<unsigned>(c.integer(1, 1000)) + static_cast<unsigned>(c.integer(0, 40));
            default:
                return static_cast<unsigned>(c.integer(top + 1, 100000));
        }
    };
    switch (c.integer(0, 2)) {
        case 0:
            m = big(12);
            c.label("month");
            break;
        case 1:
            d = big(31);
            c.label("day");
            break;
        default:
            y = static_cast<int>(c.sign()) * static_cast<int>(c.chance(0.5) ? c.integer(32768, 200000) : c.integer(65536 - 3000, 65536 + 3000));
            c.label("year");
    }
    c.show("year", y);
    c.show("month", m);
    c.show("day", d);
    c.nontrivial();
    c.check(throws<std::invalid_argument>([&]() { epoch(y, m, d); }), "an impossible date is not rejected with invalid_argument");
}

PROP("K16", "strings", 200000, 4000000, "the string states a time of day")
{
    auto t = date(c);
    auto iso = t.iso();
    c.show("date", iso);
    epoch e = from_us(t.count());
    c.check(e.as_utc_string() == iso, "printed as " + e.as_utc_string() + ", expected " + iso);
    c.check(epoch::as_utc_string(e.get_tp()) == iso, "the static printing differs");
    std::ostringstream o;
    o << e;
    c.check(o.str() == iso, "streamed as " + o.str() + ", expected " + iso);
    c.check(fmt::format("{}", e) == iso, "formatted differently from the streamed form");
    c.check(epoch(iso) == e, "reading " + iso + " back gives " + epoch(iso).as_utc_string());
    // Any allowed crop is the date with the rest at its first value.
    static const std::vector<std::size_t> lens{7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};
    auto len = c.pickv(lens);
    std::string s = iso.substr(0, len);
    Date k = t;
    if (len < 10) {
        k.d = 1;
    }
    if (len < 13) {
        k.h = 0;
    }
    if (len < 16) {
        k.mi = 0;
    }
    if (len < 19) {
        k.s = 0;
    }
    int cut = 1;
    for (std::size_t n = std::max<std::size_t>(len, 20); n < 26; ++n) {
        cut *= 10;
    }
    k.us = len < 21 ? 0 : k.us / cut * cut;
    c.check(epoch(s) == from_us(k.count()), "reading " + s + " gives " + epoch(s).as_utc_string() + ", expected " + k.iso());
    c.check(epoch(s, epoch::string_format::ISO) == epoch(s), "the explicit format differs");
    c.label("length " + std::to_string(len));
    c.nontrivial(len >= 13);
}

PROP("K16", "malformed_strings", 50000, 500000, "always: a string that is no ISO date")
{
    auto iso = date(c).iso();
    std::string s = iso;
    c.nontrivial();
    switch (c.integer(0, 3)) {
        case 0: { // a length that cuts a field
            auto n = c.pick({0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18, 20});
            s = iso.substr(0, static_cast<std::size_t>(n));
            c.show("string", s);
            c.check(throws<std::logic_error>([&]() { epoch(std::string(s)); }), "'" + s + "' is not rejected with logic_error");
            c.label("length");
            break;
        }
        case 1: {
            s += std::string(static_cast<std::size_t>(c.integer(1, 5)), '0');
            c.show("string", s);
            c.check(throws<std::logic_error>([&]() { epoch(std::string(s)); }), "'" + s + "' is not rejected with logic_error");
            c.label("too long");
            break;
        }
        case 2: {
            bool mon = c.chance(0.5);
            char b[3];
            std::snprintf(b, sizeof b, "%02d", static_cast<int>(c.chance(0.3) ? 0 : mon ? c.integer(13, 99) : c.integer(32, 99)));
            s.replace(mon ? 5 : 8, 2, b);
            c.show("string", s);
            c.check(throws<std::invalid_argument>([&]() { epoch(std::string(s)); }), "'" + s + "' is not rejected with invalid_argument");
            c.label("month or day out of range");
            break;
        }
        default: {
            auto p = static_cast<std::size_t>(c.pick({0, 5, 8, 11, 14, 17, 20}));
            s.replace(p, 2, c.pick({"ab", "x1", "--", "::"}));
            c.show("string", s);
            c.check(any_error([&]() { epoch(std::string(s)); }), "'" + s + "' is accepted");
            c.label("letters");
        }
    }
}

PROP("K16", "julian_dates", 200000, 4000000, "a fractional number of days")
{
    auto t = date(c);
    double x = static_cast<double>(t.count()) / static_cast<double>(day_us);
    switch (c.integer(0, 4)) {
        case 0:
            x = std::floor(x);
            break;
        case 1:
            x = c.real(-50000, 50000);
            break;
        case 2:
            x = c.sign() * c.logreal(1e-9, 1.);
            break;
        default:
            break;
    }
    c.show("mjd2000", x);
    auto k = c.integer(0, 2);
    double off = k == 0 ? 0. : k == 1 ? 51544. : 2451544.5, y = x + off;
    auto type = k == 0 ? epoch::julian_type::MJD2000 : k == 1 ? epoch::julian_type::MJD : epoch::julian_type::JD;
    epoch e(y, type);
    // The instant is the given number of days, to the microsecond and to the rounding of the number itself.
    double want = static_cast<double>((static_cast<long double>(y) - off) * day_us);
    c.close("instant", static_cast<double>(us_2000(e)), want, 0.5 + eps * std::abs(y) * static_cast<double>(day_us));
    getters(c, e, us_2000(e));
    if (k == 0) {
        c.check(epoch(y) == e, "the default kind of day count is not MJD2000");
        c.check(epoch(epoch::tp_from_days(y)) == e, "tp_from_days differs from the constructor");
    }
    // Reading a getter back gives the same instant, to the microsecond.
    epoch b(k == 0 ? e.mjd2000() : k == 1 ? e.mjd() : e.jd(), type);
    c.close("read back", static_cast<double>(us_2000(b)), static_cast<double>(us_2000(e)), 0.5 + eps * std::abs(y) * static_cast<double>(day_us));
    // The plain conversions.
    auto tol = eps * (std::abs(x) + 2451544.5);
    c.close("jd2mjd", kep3::jd2mjd(x + 2451544.5), x + 51544., tol);
    c.close("jd2mjd2000", kep3::jd2mjd2000(x + 2451544.5), x, tol);
    c.close("mjd2jd", kep3::mjd2jd(x + 51544.), x + 2451544.5, tol);
    c.close("mjd2mjd2000", kep3::mjd2mjd2000(x + 51544.), x, tol);
    c.close("mjd20002jd", kep3::mjd20002jd(x), x + 2451544.5, tol);
    c.close("mjd20002mjd", kep3::mjd20002mjd(x), x + 51544., tol);
    c.label(k == 0 ? "MJD2000" : k == 1 ? "MJD" : "JD");
    c.nontrivial(y != std::floor(y));
    if (c.chance(0.01)) {
        c.check(throws<std::invalid_argument>([&]() { epoch(y, static_cast<epoch::julian_type>(c.integer(3, 9))); }), "an unknown kind of day count is accepted");
        c.check(throws<std::invalid_argument>([&]() { epoch(t.iso(), static_cast<epoch::string_format>(c.integer(1, 9))); }), "an unknown string format is accepted");
    }
}

PROP("K17", "history_of_additions", 100000, 2000000, "at least three additions or subtractions")
{
    using namespace std::chrono;
    i64 m = 0;
    epoch e;
    c.check(us_2000(e) == 0, "the default epoch is not 2000-01-01");
    std::string log;
    auto steps = c.integer(1, 12);
    auto any = [&]() { return c.chance(0.2) ? c.integer(-1, 1) : c.integer(-10000000, 10000000); };
    for (long k = 0; k < steps; ++k) {
        i64 d = 0;
        bool minus = c.chance(0.5), inplace = c.chance(0.5);
        auto apply = [&](auto dur) {
            if (inplace) {
                auto &r = minus ? (e -= dur) : (e += dur);
                c.check(&r == &e, "in-place addition does not return the epoch itself");
            } else {
                epoch old = e;
                epoch n = minus ? e - dur : e + dur;
                c.check(e == old, "adding changed the epoch added to");
                e = n;
            }
        };
        switch (c.integer(0, 11)) {
            case 10: { // counted without a sign
                auto n = std::abs(any());
                if (c.chance(0.5)) {
                    apply(duration<unsigned>(static_cast<unsigned>(n)));
                    d = n * 1000000LL;
                } else {
                    apply(duration<unsigned long, std::milli>(static_cast<unsigned long>(n)));
                    d = n * 1000LL;
                }
                log += " unsigned";
                break;
            }
            case 11: { // fractions of a microsecond are dropped
                auto n = any();
                apply(duration<double, std::micro>(static_cast<double>(n) + (n < 0 ? -0.25 : 0.25)));
                d = n;
                log += " us(double)";
                break;
            }
            case 0: {
                auto n = c.integer(-1000000, 1000000);
                apply(days(n));
                d = n * day_us;
                log += " days";
                break;
            }
            case 1: {
                auto n = any();
                apply(hours(n));
                d = n * 3600000000LL;
                log += " hours";
                break;
            }
            case 2: {
                auto n = any();
                apply(minutes(n));
                d = n * 60000000LL;
                log += " minutes";
                break;
            }
            case 3: {
                auto n = any();
                apply(seconds(n));
                d = n * 1000000LL;
                log += " seconds";
                break;
            }
            case 4: {
                auto n = any();
                apply(milliseconds(n));
                d = n * 1000;
                log += " ms";
                break;
            }
            case 5: {
                auto n = any();
                apply(us_t(n));
                d = n;
                log += " us";
                break;
            }
            case 6: {
                auto n = any();
                apply(nanoseconds(n));
                d = n / 1000; // finer than the resolution: dropped
                log += " ns";
                break;
            }
            case 7: {
                double x = c.chance(0.3) ? static_cast<double>(c.integer(-1000, 1000)) : c.real(-1e5, 1e5);
                auto u = epoch::days(x);
                c.close("days", static_cast<double>(u.count()), x * 86400e6, 0.3 + eps * std::abs(x) * 86400e6);
                apply(u);
                d = u.count();
                log += " days(double)";
                break;
            }
            case 8: {
                double x = c.chance(0.3) ? static_cast<double>(c.integer(-100000, 100000)) : c.real(-1e7, 1e7);
                auto u = epoch::sec(x);
                c.close("sec", static_cast<double>(u.count()), x * 1e6, 0.3 + eps * std::abs(x) * 1e6);
                c.close("as_sec", epoch::as_sec(u), static_cast<double>(u.count()) * 1e-6, eps * std::abs(x));
                apply(u);
                d = u.count();
                log += " sec(double)";
                break;
            }
            default: { // any representation of the same instant
                switch (c.integer(0, 4)) {
                    case 0: {
                        std::stringstream s;
                        {
                            boost::archive::binary_oarchive a(s);
                            a << e;
                        }
                        epoch z(3.);
                        {
                            boost::archive::binary_iarchive a(s);
                            a >> z;
                        }
                        e = z;
                        log += " binary archive";
                        break;
                    }
                    case 1: {
                        std::stringstream s;
                        {
                            boost::archive::text_oarchive a(s);
                            a << e;
                        }
                        epoch z(-3.);
                        {
                            boost::archive::text_iarchive a(s);
                            a >> z;
                        }
                        e = z;
                        log += " text archive";
                        break;
                    }
                    case 2:
                        e = epoch(e.get_tp());
                        log += " time point";
                        break;
                    case 3:
                        e = epoch{us_t{m}}; // a duration is counted from MJD2000
                        log += " duration";
                        break;
                    default: {
                        // Only dates of years with four digits have a string.
                        if (std::abs(m) < 1900LL * 365 * day_us) {
                            e = epoch(e.as_utc_string());
                            log += " string";
                        }
                    }
                }
            }
        }
        m += minus ? -d : d;
        c.check(us_2000(e) == m, "after" + log + " the epoch is " + std::to_string(us_2000(e)) + " us from 2000, expected " + std::to_string(m));
    }
    c.show("history", log);
    c.nontrivial(steps >= 3);
    getters(c, e, m);
}

PROP("K17", "order_and_differences", 200000, 4000000, "two different instants")
{
    i64 a = c.integer(-4000000000000000000LL, 4000000000000000000LL), b = 0;
    if (c.chance(0.7)) {
        a = date(c).count();
    }
    switch (c.integer(0, 3)) {
        case 0:
            b = a + c.integer(-2, 2);
            break;
        case 1:
            b = a + c.integer(-1000000000, 1000000000);
            break;
        case 2:
            b = date(c).count();
            break;
        default:
            b = a;
    }
    c.show("a", a);
    c.show("b", b);
    epoch x = from_us(a), y = from_us(b);
    c.check((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "the comparison operators disagree with the instants");
    c.check((x - y).count() == a - b, "the difference of two epochs is not the time between them");
    c.check(y + (x - y) == x && x - (x - y) == y, "adding the difference does not reach the other epoch");
    c.close("as_sec", epoch::as_sec(x - y), static_cast<double>(static_cast<long double>(a - b) / 1000000), eps * std::abs(static_cast<double>(a - b)) * 1e-6);
    epoch z{us_t{b}};
    c.check(z == y, "an epoch built from a duration is not counted from 2000-01-01");
    c.check(epoch(std::chrono::nanoseconds(b % 1000000000 * 1000)) == from_us(b % 1000000000), "an epoch built from nanoseconds is wrong");
    c.nontrivial(a != b);
}
