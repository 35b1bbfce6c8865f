// Enum values and their names convert both ways without mistakes.
#define PBT_IMPLEMENT
#include "p11.hpp"

namespace pbt
{
const char* const property_id = "P11";

static const std::vector<p11::Case>& cases()
{
    static const std::vector<p11::Case> c = [] {
        std::vector<p11::Case> r = p11::registry();
        std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.name < b.name; });
        return r;
    }();
    return c;
}
void property(Source& s)
{
    const p11::Case& c = cases()[s.below(cases().size())];
    note("enum", c.name);
    c.run(s);
}
void custom(const std::string&, const std::string& p)
{
    const p11::Case& c = cases().at(std::stoul(p));
    note("enum", c.name);
    c.all();
}
void directed()
{
    for (size_t i = 0; i < cases().size(); ++i) {
        if (mine(i)) run_custom("all", std::to_string(i));
    }
    label("enums", cases().size());
}
} // namespace pbt
