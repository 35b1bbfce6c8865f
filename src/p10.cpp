// Struct mapping writes, checks and reads exactly the declared members.
#define PBT_IMPLEMENT
#include "p10.hpp"

namespace pbt
{
const char* const property_id = "P10";

static const std::vector<p10::Case>& cases()
{
    static const std::vector<p10::Case> c = [] {
        std::vector<p10::Case> r = p10::registry();
        std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.name < b.name; });
        return r;
    }();
    return c;
}

// a type that is refused by its own loading function
namespace
{
struct Picky
{
    int n = 0;
};
}
}
namespace json::ext
{
template <>
class jsonization<pbt::Picky>
{
public:
    json::value to_json(const pbt::Picky& p) const { return p.n; }
    bool check_json(const json::value& j) const { return j.is<int>(); }
    bool from_json(const json::value& j, pbt::Picky& p) const
    {
        p.n = j.as_integer();
        return p.n < 1000;
    }
};
}
namespace pbt
{
static void specialisations(Source& s)
{
    // copying and moving through the specialisation
    const std::string text = model::gen_string(s);
    p10::Moved a(text);
    p10::g_copies_to = p10::g_moves_to = p10::g_copies_from = p10::g_moves_from = 0;
    const json::value v(a);
    PBT_CHECK(a.text == text && p10::g_copies_to == 1 && p10::g_moves_to == 0, "an lvalue is copied");
    const json::value w(std::move(a));
    PBT_CHECK(v == w && p10::g_moves_to == 1, "an rvalue is moved");
    PBT_CHECK(mj::to_model(v) == model::V::obj({ { "moved", model::V::str(text) } }), "to_json of the specialisation gave " << v.to_string());
    const p10::Moved b = v.as<p10::Moved>();
    PBT_CHECK(b.text == text && p10::g_copies_from == 1 && p10::g_moves_from == 0, "as() of an lvalue copies");
    json::value r = v;
    const p10::Moved c = std::move(r).as<p10::Moved>();
    PBT_CHECK(c.text == text && p10::g_moves_from == 1, "as() of an rvalue moves");
    const p10::Moved d = static_cast<p10::Moved>(v);
    PBT_CHECK(d.text == text && p10::g_copies_from == 2, "a cast copies");
    // refusal by the specialisation
    const int n = static_cast<int>(s.range(-2000, 2000));
    const json::value j(n);
    PBT_CHECK(j.is<Picky>(), "is() asks check_json");
    bool threw = false;
    try {
        PBT_CHECK(j.as<Picky>().n == n, "as() gave another number");
    }
    catch (const json::exception&) {
        threw = true;
    }
    PBT_CHECK(threw == (n >= 1000), "as() of " << n << (threw ? " threw" : " did not throw"));
    PBT_CHECK(!json::value("x").is<Picky>() && !json::value().is<p10::Moved>(), "is() asks check_json");
}

void property(Source& s)
{
    const size_t k = s.weighted({ 10, 10, 1 });
    if (k == 2) return specialisations(s);
    const p10::Case& c = cases()[s.below(cases().size())];
    label(c.name[0] == 'A' ? "every number of members" : c.name[0] == 'F' ? "all 64 arguments used" : "random declarations");
    (k ? c.near : c.round_trip)(s);
}
// every struct, many times
void custom(const std::string& kind, const std::string& p)
{
    const size_t i = std::stoul(p);
    Source s(mix(i), 50);
    const p10::Case& c = cases().at(i % cases().size());
    note("struct", c.name);
    (kind == "near" ? c.near : c.round_trip)(s);
}
void directed()
{
    for (size_t i = 0; i < cases().size() * 12; ++i) {
        if (!mine(i)) continue;
        run_custom("near", std::to_string(i));
        run_custom("round-trip", std::to_string(i));
    }
}
} // namespace pbt
