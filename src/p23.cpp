// A user's own conversions are what is used, wherever the type appears.
#if PART == 0
#define PBT_IMPLEMENT
#endif
#include "p23.hpp"

namespace types
{
using namespace hooked;
using std::string;
#if PART == 1
HOOK_ALL(Member)
HOOK_FEW(MapI)
#elif PART == 2
HOOK_ALL(Plain)
HOOK_FEW(ArrU)
#elif PART == 3
HOOK_ALL(PlainMoving)
HOOK_FEW(SetU)
#elif PART == 4
HOOK_ALL(Enum)
HOOK_FEW(MapU)
#elif PART == 5
HOOK_SOME(OptU)
HOOK_SOME(StringLike)
HOOK_FEW(UniqueU)
#elif PART == 6
HOOK_SOME(VectorU)
HOOK_SOME(VarU)
HOOK_FEW(Range)
#elif PART == 7
HOOK_SOME(Tuple1U)
HOOK_SOME(EnumMoving)
HOOK_FEW(VectorLike)
#elif PART == 8
HOOK_SOME(TupleU)
HOOK_SOME(PairU)
HOOK_FEW(MapLike)
#elif PART == 9
HOOK_SOME(Nullable)
HOOK_SOME(SharedU)
HOOK_FEW(ToString)
HOOK_FEW(Seconds)
HOOK_FEW(MemberVector)
#endif
}

#if PART == 0
namespace pbt
{
const char* const property_id = "P23";
using namespace typed;

static const std::vector<types::HookCase>& cases()
{
    static const std::vector<types::HookCase> c = [] {
        std::vector<types::HookCase> r = types::hook_registry();
        std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.name < b.name; });
        return r;
    }();
    return c;
}

// a user who defines one direction leaves the other to the library
static void one_way(Source& s)
{
    const auto d = G<hooked::DequeU>::gen(s);
    const json::value v(d), w = std::vector<hooked::DequeU> { d, d };
    const std::string said = "size " + std::to_string(d.size());
    PBT_CHECK(v.is_string() && v.as_string() == said, "to_json is ignored for a type without from_json: " << v.to_string());
    PBT_CHECK(w.is_array() && w.as_array().size() == 2 && w.at(1) == v && json::value(hooked::DequeU(d)) == v, "to_json is ignored for an element: " << w.to_string());
    json::array a;
    for (auto x : d) a.push_back(x);
    const json::value native = a;
    PBT_CHECK(native.is<hooked::DequeU>() && native.as<hooked::DequeU>() == d && !v.is<hooked::DequeU>(), "a type with only to_json isn't converted from " << native.to_string());

    const auto l = G<hooked::ListU>::gen(s);
    const json::value lv(l), text(model::gen_string(s));
    PBT_CHECK(mj::to_model(lv) == G<hooked::ListU>::to_v(l), "a type with only from_json became " << lv.to_string());
    PBT_CHECK(!lv.is<hooked::ListU>() && text.is<hooked::ListU>() && text.as<hooked::ListU>().size() == text.as_string().size(), "check_json or from_json are ignored for a type without to_json on " << text.to_string());
    using M = std::map<std::string, hooked::ListU>;
    const json::value in = json::object { { "k", text } };
    PBT_CHECK(in.is<M>() && in.as<M>().at("k").size() == text.as_string().size(), "from_json is ignored for an element of " << in.to_string());
    nontrivial(hash_bytes(text.to_string(), d.size()));
}

void property(Source& s)
{
    hooked::reset();
    const size_t i = s.below(cases().size() + 1);
    if (i == cases().size()) return one_way(s);
    const types::HookCase& c = cases()[i];
    label(c.name);
    switch (s.below(3)) {
    case 0: return c.round_trip(s);
    case 1: return c.conversion(s);
    default: return c.hooks(s);
    }
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
#endif
