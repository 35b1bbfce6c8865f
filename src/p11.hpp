// Enums of every shape: what the generated programs of P11 share.
#pragma once
#include "typed.hpp"

namespace p11
{
using model::V;
using pbt::Source;
template <typename E>
struct Table; // lo, hi (configured range), marked (its markers are enumerators, too), list()

struct Case
{
    std::string name;
    void (*run)(Source&);
    void (*all)();
};
inline std::vector<Case>& registry()
{
    static std::vector<Case> r;
    return r;
}

template <typename E>
struct Check
{
    using U = std::underlying_type_t<E>;
    using T = Table<E>;
    static std::string num(U u) { return typed::int128_text(static_cast<__int128>(u)); }
    static bool in_range(E e)
    {
        const auto x = static_cast<__int128>(static_cast<U>(e));
        return x >= T::lo && x <= T::hi;
    }
    static std::vector<std::string> names_of(E e)
    {
        std::vector<std::string> r;
        for (auto& [x, n] : T::list()) {
            if (x == e) r.push_back(n);
        }
        // the bounds given by MEOJSON_ENUM_RANGE are enumerators of their own
        if (T::marked && static_cast<__int128>(static_cast<U>(e)) == T::lo) r.push_back("_MEOJSON_ENUM_MIN");
        if (T::marked && static_cast<__int128>(static_cast<U>(e)) == T::hi) r.push_back("_MEOJSON_ENUM_MAX");
        return r;
    }

    template <typename F>
    static bool refused(const std::string& what, F&& f)
    {
        try {
            f();
        }
        catch (const json::exception&) {
            return true;
        }
        catch (const pbt::Failure&) {
            throw;
        }
        catch (const std::exception&) {
            pbt::fail(what + " threw " + pbt::describe_current_exception());
        }
        return false;
    }

    // every value of the underlying type, named or not
    static void value(const char* name, E e)
    {
        const std::string shown = std::string(name) + " " + num(static_cast<U>(e));
        const auto names = names_of(e);
        std::optional<json::value> v;
        const bool r = refused(shown, [&] { v.emplace(e); });
#ifdef MEOJSON_ENUM_AS_NUMBER
        PBT_CHECK(!r, shown << " was refused");
        if constexpr (std::is_same_v<U, bool>) PBT_CHECK(v->is_boolean() && v->as_boolean() == static_cast<U>(e), shown << " became " << v->to_string());
        else PBT_CHECK(v->is_number() && v->to_string() == num(static_cast<U>(e)), shown << " became " << v->to_string());
        (void)names;
#else
        if (names.empty()) PBT_CHECK(r, shown << " has no name but became " << v->to_string());
        if (!names.empty() && in_range(e)) PBT_CHECK(!r, shown << " (" << names[0] << ") was refused");
        if (v) {
            PBT_CHECK(v->is_string(), shown << " became " << v->to_string());
            const std::string got = v->as_string();
            PBT_CHECK(std::find(names.begin(), names.end(), got) != names.end(), shown << " became " << pbt::printable(got) << ", which is not its name");
            // a declared name, not the marker, unless there is no other
            PBT_CHECK(!T::marked || names[0][0] == '_' || got[0] != '_' || got == names[0] || std::find(names.begin(), names.end(), got)->rfind("_MEOJSON", 0) != 0, shown << " became a marker");
        }
#endif
        if (!v) return;
        PBT_CHECK(v->is<E>() && v->as<E>() == e && static_cast<E>(*v) == e, shown << " came back as something else from " << v->to_string());
        const json::value vec(std::vector<E> { e, e });
        PBT_CHECK(vec.as_array().at(0) == *v && vec.as_array().at(1) == *v && vec.is<std::vector<E>>() && vec.as<std::vector<E>>() == std::vector<E>({ e, e }), shown << " in a vector");
        const json::value map(std::map<std::string, E> { { "k", e } });
        PBT_CHECK((map.at("k") == *v && map.as<std::map<std::string, E>>().at("k") == e), shown << " in a map");
        const json::value holder = json::object { { "k", e } };
        const auto f = holder.find<E>("k");
        PBT_CHECK(f && *f == e && holder.get("k", T::list()[0].first) == e, shown << " looked up");
        const auto p = json::parse(vec.to_string());
        PBT_CHECK(p && *p == vec && p->as_array().at(0).template as<E>() == e, shown << " through " << vec.to_string());
    }

    static void text(const char* name, const std::string& t)
    {
        const std::string shown = std::string(name) + " " + pbt::printable(t);
        const json::value v(t);
        std::optional<E> exact;
        bool exact_known = false;
        std::vector<E> folded;
        auto list = T::list();
        if (T::marked) {
            list.emplace_back(static_cast<E>(static_cast<U>(T::lo)), "_MEOJSON_ENUM_MIN");
            list.emplace_back(static_cast<E>(static_cast<U>(T::hi)), "_MEOJSON_ENUM_MAX");
        }
        for (size_t i = 0; i < list.size(); ++i) {
            bool alias = false;
            for (size_t j = 0; j < i; ++j) alias = alias || list[j].first == list[i].first;
            if (list[i].second == t) {
                exact = list[i].first;
                // only one name of a value has to be known
                exact_known = !alias && in_range(list[i].first);
            }
            if (typed::lower(list[i].second) == typed::lower(t)) {
                folded.push_back(list[i].first);
            }
        }
        bool folded_known = false;
        for (size_t i = 0; i < list.size(); ++i) {
            bool alias = false;
            for (size_t j = 0; j < i; ++j) alias = alias || list[j].first == list[i].first;
            folded_known = folded_known || (!alias && in_range(list[i].first) && typed::lower(list[i].second) == typed::lower(t));
        }
        const bool is = v.is<E>();
        std::optional<E> got;
        const bool r = refused(shown, [&] { got = v.as<E>(); });
        PBT_CHECK(is == !r, shown << ": is() is " << is << " but the conversion was " << (r ? "refused" : "done"));
        if (folded.empty()) PBT_CHECK(r, shown << " is no name but gave " << num(static_cast<U>(*got)));
        if (exact_known || folded_known) PBT_CHECK(!r, shown << " was refused");
        if (got && exact_known) PBT_CHECK(*got == *exact, shown << " gave " << num(static_cast<U>(*got)) << " not " << num(static_cast<U>(*exact)));
        if (got) PBT_CHECK(std::find(folded.begin(), folded.end(), *got) != folded.end(), shown << " gave " << num(static_cast<U>(*got)) << ", which has another name");
        PBT_CHECK(refused(shown, [&] { (void)static_cast<E>(v); }) == r, shown << ": cast and as() disagree");
        PBT_CHECK(json::array { v }.all<E>() == is, shown << ": all() and is() disagree");
        pbt::nontrivial(pbt::hash_bytes(t, pbt::hash_bytes(name)));
        if (t.size() > 1 && t.size() < 40) pbt::sample(shown);
    }

    static void number(const char* name, const std::string& t)
    {
        const std::string shown = std::string(name) + " number " + t;
        const json::value v(json::value::value_type::number, t);
        std::optional<E> got;
        const bool is = v.is<E>();
        const bool r = refused(shown, [&] { got = v.as<E>(); });
        PBT_CHECK(is == !r, shown << ": is() is " << is << " but the conversion was " << (r ? "refused" : "done"));
        if constexpr (std::is_same_v<U, bool>) PBT_CHECK(r, shown << " is no boolean");
        else {
            const auto want = typed::exact_integer<U>(t);
            PBT_CHECK(r == !want, shown << (r ? " was refused" : " was not refused"));
            if (want) PBT_CHECK(static_cast<U>(*got) == *want, shown << " gave " << num(static_cast<U>(*got)));
        }
        PBT_CHECK(refused(shown, [&] { (void)static_cast<E>(v); }) == r, shown << ": cast and as() disagree");
        pbt::nontrivial(pbt::hash_bytes(t, pbt::hash_bytes(name) + 1));
    }

    static void other(const char* name, const V& m)
    {
        const json::value v = mj::build(m);
        const bool boolean = std::is_same_v<U, bool> && m.k == model::Bool;
        PBT_CHECK(v.is<E>() == boolean, name << ": is() of " << mj::show(m));
        const bool r = refused(name, [&] {
            const E e = v.as<E>();
            if constexpr (std::is_same_v<U, bool>) PBT_CHECK(static_cast<U>(e) == m.b, "boolean to enum");
            else (void)e;
        });
        PBT_CHECK(r == !boolean, name << ": conversion of " << mj::show(m));
    }

    static void run(Source& s, const char* name)
    {
        const auto list = T::list();
        using L = std::numeric_limits<U>;
        switch (s.weighted({ 3, 4, 3, 1 })) {
        case 0: {
            U u;
            switch (s.below(4)) {
            case 0: u = static_cast<U>(s.pick(list).first); break;
            case 1: u = static_cast<U>(T::lo + s.range(-3, T::hi - T::lo + 3)); break;
            case 2: u = s.pick({ L::min(), L::max() }); break;
            default: u = static_cast<U>(s.bits() >> s.below(64));
            }
            pbt::note("value", num(u));
            return value(name, static_cast<E>(u));
        }
        case 1: {
            std::string t = s.pick(list).second;
            switch (s.weighted({ 2, 4, 2, 2, 1, 1 })) {
            case 0: break;
            case 1:
                for (char& c : t) {
                    if (((c | 32) >= 'a' && (c | 32) <= 'z') && s.flip()) c ^= 32;
                }
                break;
            case 2: t[s.below(t.size())] ^= s.pick({ 32, 1, 64, static_cast<int>(0x80) }); break;
            case 3: t = s.flip() ? t + s.pick({ "x", " ", "_", "\0", "::" }) : t.substr(0, t.size() - 1); break;
            case 4: t = s.pick({ "", " ", "-1", "0", "1", "V", "E", "(E)5", "_MEOJSON_ENUM_MIN", "_MEOJSON_ENUM_MAX", "null", "true", "Red", "::", "]" }); break;
            default: t = s.pick({ "E::", " ", "v", "" }) + t;
            }
            pbt::note("text", t);
            return text(name, t);
        }
        case 2: {
            std::string t = model::gen_number(s);
            if (s.chance(40)) t = num(static_cast<U>(s.pick(list).first));
            else if (s.chance(40)) t = typed::int128_text(static_cast<__int128>(s.pick({ L::min(), L::max() })) + s.range(-2, 2));
            else if (s.chance(20)) t = std::to_string(s.range(-300, 300));
            pbt::note("number", t);
            return number(name, t);
        }
        default: {
            const V m = model::gen_any(s, 3, 2);
            if (m.k != model::Str && m.k != model::Num) other(name, m);
        }
        }
    }
    // everything near the range, and all names
    static void all(const char* name)
    {
        for (long long i = T::lo - 2; i <= T::hi + 2; ++i) {
            const U u = static_cast<U>(i);
            if (static_cast<__int128>(u) == i) value(name, static_cast<E>(u));
        }
        for (auto& [e, n] : T::list()) {
            value(name, e);
            text(name, n);
            std::string up = n, lo = n;
            for (char& c : up) c = static_cast<char>(toupper(c));
            for (char& c : lo) c = static_cast<char>(tolower(c));
            text(name, up);
            text(name, lo);
            number(name, num(static_cast<U>(e)));
        }
        for (int i = -300; i <= 300; ++i) number(name, std::to_string(i));
    }
};

template <typename E, const char* const& Name>
struct Register
{
    Register()
    {
        registry().push_back({ Name, [](Source& s) { Check<E>::run(s, Name); }, [] { Check<E>::all(Name); } });
    }
};
#define ENUM(E)                                     \
    static const char* const name_##E = #E;         \
    static const Register<E, name_##E> reg_##E;
} // namespace p11
