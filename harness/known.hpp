// Known findings: a genuine defect that is recorded rather than repaired. Cases that match are left out of the random
// search (and counted) only while the id is listed in known_findings.json.
#pragma once
#include <functional>
#include <set>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace pbt
{
struct KnownTest {
    std::string id, property, what;
    std::function<bool()> still_fails;
};
std::vector<KnownTest> &known_registry();
std::set<std::string> &known_listed();
inline bool known(Case &c, const std::string &id)
{
    if (known_listed().count(id) != 0) {
        c.label("excluded: known finding " + id);
        return true;
    }
    return false;
}
struct KnownReg {
    KnownReg(const char *id, const char *property, const char *what, std::function<bool()> f)
    {
        known_registry().push_back({id, property, what, std::move(f)});
    }
};
} // namespace pbt
