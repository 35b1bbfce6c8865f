// Typed data converts to JSON and back unchanged; also P08's main (-DP08): a type test tells exactly
// whether the conversion works.
#define PBT_IMPLEMENT
#include "types.hpp"

namespace pbt
{
#ifdef P08
const char* const property_id = "P08";
#define PICK p08
#else
const char* const property_id = "P07";
#define PICK p07
#endif

static const std::vector<types::Case>& cases()
{
    static const std::vector<types::Case> c = [] {
        std::vector<types::Case> r;
        for (auto& x : types::registry()) {
            if (x.PICK) r.push_back(x);
        }
        std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.name < b.name; });
        return r;
    }();
    return c;
}

void property(Source& s)
{
    const types::Case& c = cases()[s.below(cases().size())];
    label(c.name);
    c.PICK(s);
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
