// Values say truthfully what they are, and errors say what went wrong.
#define PBT_IMPLEMENT
#include <array>
#include <list>
#include <memory>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <variant>

#include "mj.hpp"

namespace pbt
{
const char* const property_id = "P22";
using model::V;
using T = json::value::value_type;

enum class Colour
{
    red,
    green
};

static const char* name_of(T t)
{
    switch (t) {
    case T::invalid: return "invalid";
    case T::null: return "null";
    case T::boolean: return "boolean";
    case T::string: return "string";
    case T::number: return "number";
    case T::array: return "array";
    default: return "object";
    }
}
static T type_of(const V& m)
{
    switch (m.k) {
    case model::Null: return T::null;
    case model::Bool: return T::boolean;
    case model::Num: return T::number;
    case model::Str: return T::string;
    case model::Arr: return T::array;
    default: return T::object;
    }
}
static bool is_empty(const V& m)
{
    return m.k == model::Null || (m.k == model::Str && m.s.empty()) || (m.k == model::Arr && m.a.empty()) || (m.k == model::Obj && m.o.empty());
}

// What f says when it fails; every error is an exception of this library or of the standard containers
struct Said
{
    bool threw = false, own = false;
    std::string text;
};
template <typename F>
static Said said(const std::string& what, F&& f)
{
    Said r;
    try {
        f();
    }
    catch (const Failure&) {
        throw;
    }
    catch (const json::exception& e) {
        r = { true, true, e.what() ? e.what() : "" };
        const std::exception& base = e;
        PBT_CHECK(base.what() == std::string(e.what()), what << ": what() depends on the type by which it is caught");
        json::exception copy(e), assigned;
        assigned = copy;
        json::exception moved(std::move(copy));
        PBT_CHECK(moved.what() == r.text && assigned.what() == r.text, what << ": a copy of the exception says " << printable(assigned.what()) << " not " << printable(r.text));
    }
    catch (const std::exception& e) {
        r = { true, false, e.what() ? e.what() : "" };
    }
    PBT_CHECK(!r.threw || !r.text.empty(), what << ": an exception that says nothing");
    return r;
}

// The operation has to succeed, or to be refused with a text that holds one of these
template <typename F>
static void accessor(const json::value& v, const char* how, bool ok, const std::vector<std::string>& cause, F&& f)
{
    const auto show = [&] { return std::string(how) + " of " + (v.valid() ? printable(v.to_string()) : "an invalid value"); };
    const Said r = said(show(), f);
    PBT_CHECK(r.threw == !ok, show() << (ok ? " was refused: " + r.text : " was not refused"));
    if (!r.threw) return;
    PBT_CHECK(r.own, show() << " threw " << r.text << ", which is no json::exception");
    bool names = false;
    for (auto& c : cause) names = names || r.text.find(c) != std::string::npos;
    PBT_CHECK(names, show() << " says " << printable(r.text) << ", which does not name " << cause.front());
    label("errors with a cause");
}

// Numbers: text that has no value of the type
template <typename N>
static bool fits(const std::string& t)
{
    if constexpr (std::is_integral_v<N>) {
        N n {};
        const auto [p, e] = std::from_chars(t.data(), t.data() + t.size(), n);
        return e == std::errc {} && p == t.data() + t.size();
    }
    else {
        char* end = nullptr;
        errno = 0;
        N n {};
        if constexpr (std::is_same_v<N, float>) n = strtof(t.c_str(), &end);
        else if constexpr (std::is_same_v<N, double>) n = strtod(t.c_str(), &end);
        else n = strtold(t.c_str(), &end);
        return !t.empty() && end == t.c_str() + t.size() && (n == 0 || (n < std::numeric_limits<N>::infinity() && n > -std::numeric_limits<N>::infinity()));
    }
}
template <typename N, typename F>
static void number(const json::value& v, const char* how, F&& as)
{
    const bool is = v.is_number();
    const std::string t = is ? v.to_string() : name_of(v.type());
    const bool ok = is && fits<N>(t);
    accessor(v, how, ok, { t }, as);
    accessor(v, (std::string("as of what ") + how + " gives,").c_str(), ok, { t }, [&] { (void)v.as<N>(); });
    accessor(v, (std::string("conversion to what ") + how + " gives,").c_str(), ok, { t }, [&] { (void)static_cast<N>(v); });
    PBT_CHECK(v.is<N>() == ok, how << ": is() is " << v.is<N>() << " for " << printable(t));
}

// names of what keeps a container from being converted
static std::vector<std::string> offending(const V& m, model::Kind wanted)
{
    std::vector<std::string> r;
    for (auto& x : m.a) {
        if (x.k != wanted) r.push_back(name_of(type_of(x)));
        else if (x.k == model::Num && !fits<int>(x.s)) r.push_back(x.s);
    }
    for (auto& [k, x] : m.o) {
        if (x.k != wanted) r.push_back(name_of(type_of(x)));
        else if (x.k == model::Num && !fits<int>(x.s)) r.push_back(x.s);
    }
    return r;
}

// v is what it says it is; m is what it has to be, if that is known
static void truth(const json::value& v, T t, const V* m, const char* how)
{
    const std::string show = std::string(how) + ", " + (t == T::invalid ? "invalid" : m ? mj::show(*m) : "unspecified " + std::string(name_of(t)));
    PBT_CHECK(v.type() == t, show << ": type() is " << name_of(v.type()));
    PBT_CHECK(v.valid() == (t != T::invalid), show << ": valid() is " << v.valid());
    PBT_CHECK(v.type_name() == name_of(t), show << ": type_name() is " << v.type_name());
    PBT_CHECK(v.is_null() == (t == T::null) && v.is_boolean() == (t == T::boolean) && v.is_string() == (t == T::string), show << ": is_null, is_boolean or is_string");
    PBT_CHECK(v.is_number() == (t == T::number) && v.is_array() == (t == T::array) && v.is_object() == (t == T::object), show << ": is_number, is_array or is_object");
    PBT_CHECK(v.is<std::nullptr_t>() == (t == T::null) && v.is<std::monostate>() == (t == T::null), show << ": is<nullptr_t>");
    PBT_CHECK(v.is<bool>() == (t == T::boolean) && v.is<std::string>() == (t == T::string) && v.is<std::string_view>() == (t == T::string), show << ": is<bool>, is<std::string>");
    PBT_CHECK(v.is<json::array>() == (t == T::array) && v.is<json::object>() == (t == T::object) && v.is<json::value>(), show << ": is<array>, is<object>, is<value>");
    if (m) PBT_CHECK(v.empty() == is_empty(*m), show << ": empty() is " << v.empty());
    PBT_CHECK(v.value_info().find(name_of(t)) != std::string::npos, show << ": value_info() is " << printable(v.value_info()));

    const std::vector<std::string> cause { name_of(t) };
    accessor(v, "as_boolean", t == T::boolean, cause, [&] { (void)v.as_boolean(); });
    accessor(v, "bool", t == T::boolean, cause, [&] { (void)static_cast<bool>(v); });
    accessor(v, "as_string", t == T::string, cause, [&] { (void)v.as_string(); });
    accessor(v, "as_string_view", t == T::string, cause, [&] { (void)v.as_string_view(); });
    accessor(v, "std::string", t == T::string, cause, [&] { (void)static_cast<std::string>(v); });
    accessor(v, "as<std::string>", t == T::string, cause, [&] { (void)v.as<std::string>(); });
    accessor(v, "as_array", t == T::array, cause, [&] { (void)v.as_array(); });
    accessor(v, "json::array", t == T::array, cause, [&] { (void)static_cast<json::array>(v); });
    accessor(v, "as_object", t == T::object, cause, [&] { (void)v.as_object(); });
    accessor(v, "json::object", t == T::object, cause, [&] { (void)static_cast<json::object>(v); });
    accessor(v, "nullptr_t", t == T::null, cause, [&] { (void)static_cast<std::nullptr_t>(v); });
    accessor(v, "monostate", t == T::null, cause, [&] { (void)static_cast<std::monostate>(v); });
    number<int>(v, "as_integer", [&] { (void)v.as_integer(); });
    number<unsigned>(v, "as_unsigned", [&] { (void)v.as_unsigned(); });
    number<long>(v, "as_long", [&] { (void)v.as_long(); });
    number<unsigned long>(v, "as_unsigned_long", [&] { (void)v.as_unsigned_long(); });
    number<long long>(v, "as_long_long", [&] { (void)v.as_long_long(); });
    number<unsigned long long>(v, "as_unsigned_long_long", [&] { (void)v.as_unsigned_long_long(); });
    number<float>(v, "as_float", [&] { (void)v.as_float(); });
    number<double>(v, "as_double", [&] { (void)v.as_double(); });
    number<long double>(v, "as_long_double", [&] { (void)v.as_long_double(); });

    // through elements
    if (t != T::array) {
        accessor(v, "at(0)", false, cause, [&] { (void)v.at(size_t(0)); });
        accessor(v, "[0]", false, cause, [&] { (void)v[size_t(0)]; });
        PBT_CHECK(!v.contains(size_t(0)) && !v.exists(size_t(0)) && !v.find(size_t(0)) && !v.find_value(size_t(0)) && v.get(size_t(0), 42) == 42, show << " has an element");
    }
    if (t != T::object) {
        accessor(v, "at(key)", false, cause, [&] { (void)v.at("key"); });
        PBT_CHECK(!v.contains("key") && !v.exists("key") && !v.find("key") && !v.find_value("key") && v.get("key", 42) == 42, show << " has a member");
    }
    using Ints = std::vector<int>;
    using Map = std::map<std::string, int>;
    using Pair = std::tuple<int, std::string>;
    using Var = std::variant<bool, std::string>;
    if (t != T::array) {
        accessor(v, "vector", false, cause, [&] { (void)v.as<Ints>(); });
        accessor(v, "list", false, cause, [&] { (void)static_cast<std::list<int>>(v); });
        accessor(v, "std::array", false, cause, [&] { (void)v.as<std::array<int, 2>>(); });
        accessor(v, "tuple", false, cause, [&] { (void)v.as<Pair>(); });
        PBT_CHECK(!v.is<Ints>() && !v.is<Pair>() && !(v.is<std::array<int, 2>>()), show << ": is<a sequence>");
    }
    else if (m) {
        const auto ints = offending(*m, model::Num);
        accessor(v, "vector", ints.empty(), ints, [&] { (void)v.as<Ints>(); });
        const std::string n = std::to_string(m->a.size());
        if (m->a.size() != 2) {
            accessor(v, "std::array", false, { n }, [&] { (void)v.as<std::array<json::value, 2>>(); });
            accessor(v, "tuple", false, { n }, [&] { (void)v.as<Pair>(); });
            accessor(v, "pair", false, { n }, [&] { (void)static_cast<std::pair<json::value, json::value>>(v); });
        }
    }
    if (t != T::object) {
        accessor(v, "map", false, cause, [&] { (void)v.as<Map>(); });
        accessor(v, "unordered_map", false, cause, [&] { (void)static_cast<std::unordered_map<std::string, int>>(v); });
        PBT_CHECK(!v.is<Map>(), show << ": is<map>");
    }
    else if (m) {
        const auto ints = offending(*m, model::Num);
        accessor(v, "map", ints.empty(), ints, [&] { (void)v.as<Map>(); });
    }
    accessor(v, "optional", t == T::null || t == T::string, cause, [&] { (void)v.as<std::optional<std::string>>(); });
    accessor(v, "shared_ptr", t == T::null || t == T::boolean, cause, [&] { (void)v.as<std::shared_ptr<bool>>(); });
    accessor(v, "variant", t == T::boolean || t == T::string, cause, [&] { (void)v.as<Var>(); });
    if (t != T::number && t != T::string) accessor(v, "enum", false, cause, [&] { (void)v.as<Colour>(); });
    if (t == T::string && m) {
        const bool known = v.is<Colour>();
        std::string quoted = model::dump(*m).substr(0, 40);
        accessor(v, "enum", known, { quoted }, [&] { (void)v.as<Colour>(); });
    }

    // the same through containers
    const bool all_b = json::array { v, v }.all<bool>();
    PBT_CHECK(all_b == (t == T::boolean), show << ": all<bool>()");
    if (t == T::invalid) {
        // it has no text, and says so
        accessor(v, "to_string", false, cause, [&] { (void)v.to_string(); });
        accessor(v, "format", false, cause, [&] { (void)v.format(); });
        accessor(v, "dumps", false, cause, [&] { (void)v.dumps(2); });
        const json::value in = json::object { { "k", json::array { 1, v } } };
        accessor(v, "to_string in a container", false, cause, [&] { (void)in.to_string(); });
        accessor(v, "format in a container", false, cause, [&] { (void)in.as_object().format(); });
        PBT_CHECK(in.at("k").at(1).type() == T::invalid && !in.at("k").at(1).valid() && in.at("k").is<std::vector<int>>() == false, "an invalid element");
    }
    else if (m) {
        PBT_CHECK(mj::to_model(v) == *m, show << " is " << printable(v.to_string()) << " after all");
    }
}

// access that may change the value
static void containers(const json::value& v, const V& m, const char* how)
{
    const std::vector<std::string> cause { name_of(v.type()) };
    const auto show = std::string(how) + ", " + mj::show(m);
    const auto check = [&](const char* op, bool ok, const V& after, auto&& f) {
        json::value x = v;
        accessor(v, op, ok, cause, [&] { f(x); });
        const V now = mj::to_model(x);
        PBT_CHECK(now == after, show << ": " << op << (ok ? " gave " : ", refused, left ") << mj::show(now) << " not " << mj::show(after));
        truth(x, type_of(after), &after, op);
    };
    const bool a = m.k == model::Arr || is_empty(m), o = m.k == model::Obj || is_empty(m);
    const V arr = m.k == model::Arr ? m : V::arr(), obj = m.k == model::Obj ? m : V::obj();
    check("mutable as_array", a, a ? arr : m, [](json::value& x) { (void)x.as_array(); });
    check("mutable as_object", o, o ? obj : m, [](json::value& x) { (void)x.as_object(); });
    V pushed = arr, set = obj, merged = obj;
    pushed.a.push_back(V::num("7"));
    set.o["new key"] = V::num("7");
    check("emplace(7)", a, a ? pushed : m, [](json::value& x) { x.emplace(7); });
    check("+=", a, a ? pushed : m, [](json::value& x) { x += json::array { json::value(7) }; });
    check("emplace(key, 7)", o, o ? set : m, [](json::value& x) { x.emplace("new key", 7); });
    check("|=", o, o ? set : m, [](json::value& x) { x |= json::object { { "new key", 7 } }; });
    check("[key]", o, o ? set : m, [](json::value& x) { x["new key"] = 7; });
    const Said plus = said(show, [&] { (void)(v + json::array { json::value(7) }); }), bar = said(show, [&] { (void)(v | json::object { { "new key", 7 } }); });
    PBT_CHECK(plus.threw == !a || m.k == model::Null || is_empty(m), show << ": + " << (plus.threw ? "refused" : "not refused"));
    PBT_CHECK(bar.threw == !o || m.k == model::Null || is_empty(m), show << ": | " << (bar.threw ? "refused" : "not refused"));
    if (plus.threw) PBT_CHECK(plus.own && plus.text.find(cause[0]) != std::string::npos, show << ": + says " << printable(plus.text));
    if (bar.threw) PBT_CHECK(bar.own && bar.text.find(cause[0]) != std::string::npos, show << ": | says " << printable(bar.text));
    PBT_CHECK(mj::to_model(v) == m, show << " was changed through a copy");
}

static std::string g_how; // how the value came about

// Some other value to be overwritten, of any type
static json::value any_other(Source& s)
{
    if (s.chance(10)) return json::value(T::invalid);
    return mj::build(model::gen_any(s, 3, 2));
}

// m by one of the ways in which values come about
static json::value reach(Source& s, const V& m)
{
    const auto way = [](const char* w) { g_how = g_how.empty() ? w : g_how.size() > 200 ? g_how : g_how + std::string(", ") + w; };
    switch (s.below(26)) {
    case 0: way("built"); return mj::build(m);
    case 1: {
        way("parsed");
        const std::string t = "[" + model::dump(m) + "]";
        if (auto p = json::parse(t)) return p->at(0);
        return mj::build(m);
    }
    case 2:
        way("raw");
        switch (m.k) {
        case model::Null: return json::value(T::null);
        case model::Bool: return json::value(T::boolean, m.b ? "true" : "false");
        case model::Num: return json::value(T::number, m.s);
        case model::Str: return json::value(T::string, m.s);
        case model::Arr: return json::value(T::array, std::make_unique<json::array>(mj::build(m).as_array()));
        default: return json::value(T::object, std::make_unique<json::object>(mj::build(m).as_object()));
        }
    case 3: {
        way("copied");
        const json::value x = reach(s, m);
        json::value y(x);
        truth(x, type_of(m), &m, "the source of a copy");
        return y;
    }
    case 4: {
        way("moved");
        json::value x = reach(s, m);
        json::value y(std::move(x));
        truth(x, x.type(), nullptr, "moved-from");
        return y;
    }
    case 5: {
        way("copy assigned");
        json::value x = any_other(s);
        const json::value y = reach(s, m);
        x = y;
        return x;
    }
    case 6: {
        way("move assigned");
        json::value x = any_other(s), y = reach(s, m);
        x = std::move(y);
        truth(y, y.type(), nullptr, "assigned from");
        return x;
    }
    case 7: {
        way("swapped");
        const V om = model::gen_any(s, 3, 2);
        json::value x = mj::build(om), y = reach(s, m);
        std::swap(x, y);
        truth(y, type_of(om), &om, "swapped");
        return x;
    }
    case 8: {
        way("assigned to itself");
        json::value x = reach(s, m);
        const json::value& r = x;
        x = r;
        return x;
    }
    case 9: {
        way("an element");
        json::array a { mj::build(model::gen_any(s, 2, 2)), reach(s, m), json::value(T::invalid) };
        PBT_CHECK(!a[2].valid() && a.at(2).type() == T::invalid, "an invalid element has another type");
        switch (s.below(5)) {
        case 0: return a.at(1);
        case 1: return a[1];
        case 2: return *(a.begin() + 1);
        case 3: return *(a.rbegin() + 1);
        default: return std::move(a[1]);
        }
    }
    case 10: {
        way("a member");
        json::object o { { "k", reach(s, m) }, { "l", 1 } };
        switch (s.below(5)) {
        case 0: return o.at("k");
        case 1: return o["k"];
        case 2: return o.begin()->second;
        case 3: return json::value(o).at("k");
        default: return std::move(o)["k"];
        }
    }
    case 11: {
        way("found");
        const json::value in = json::object { { "k", json::array { reach(s, m) } } };
        const auto a = in.find("k");
        const auto f = a->find(size_t(0));
        PBT_CHECK(f, "find of an element that is there");
        return *f;
    }
    case 12: {
        way("got");
        const json::value in = json::object { { "k", json::array { reach(s, m) } } };
        return in.get("k", size_t(0), json::value(T::invalid));
    }
    case 13: {
        way("a default");
        const json::value in = json::object { { "k", 1 } };
        return in.get("none", reach(s, m));
    }
    case 14:
        way("merged");
        if (m.k == model::Obj) {
            V l = V::obj(), r = V::obj();
            for (auto& [k, x] : m.o) {
                if (s.flip()) l.o[k] = V::num("0");
                if (s.flip()) r.o[k] = x;
                else l.o[k] = x;
            }
            json::value a = reach(s, l), b = reach(s, r);
            switch (s.below(3)) {
            case 0: return a | b.as_object();
            case 1: a |= b.as_object(); return a;
            default: return std::move(a) | std::move(b.as_object());
            }
        }
        return mj::build(m);
    case 15:
        way("appended");
        if (m.k == model::Arr) {
            const size_t cut = s.below(m.a.size() + 1);
            V l = V::arr(), r = V::arr();
            for (size_t i = 0; i < m.a.size(); ++i) (i < cut ? l : r).a.push_back(m.a[i]);
            json::value a = reach(s, l), b = reach(s, r);
            switch (s.below(3)) {
            case 0: return a + b.as_array();
            case 1: a += b.as_array(); return a;
            default: return std::move(a) + std::move(b.as_array());
            }
        }
        return mj::build(m);
    case 16: {
        way("emplaced");
        json::value a, o;
        if (s.flip()) {
            a.emplace(reach(s, m));
            return a.at(0);
        }
        o.emplace("k", reach(s, m));
        return o["k"];
    }
    case 17:
        way("cleared");
        if (m.k == model::Null) {
            json::value x = any_other(s);
            x.clear();
            return x;
        }
        if (m.k == model::Arr && m.a.empty()) {
            json::array x { json::value(1), json::value(2) };
            x.clear();
            return x;
        }
        if (m.k == model::Obj && m.o.empty()) {
            json::object x { { "k", 2 } };
            x.clear();
            return x;
        }
        return mj::build(m);
    case 18:
        way("from C++ data");
        switch (m.k) {
        case model::Null:
            switch (s.below(7)) {
            case 0: return json::value(nullptr);
            case 1: return json::value(std::monostate {});
            case 2: return json::value(std::optional<int> {});
            case 3: return json::value(std::optional<std::vector<int>> {});
            case 4: return json::value(std::shared_ptr<int> {});
            case 5: return json::value(std::unique_ptr<std::string> {});
            default: return json::value(std::variant<std::monostate, int> {});
            }
        case model::Bool: return s.flip() ? json::value(std::optional<bool>(m.b)) : json::value(std::variant<int, bool>(m.b));
        case model::Num: return mj::build(m);
        case model::Str:
            switch (s.below(4)) {
            case 0: return json::value(std::string_view(m.s));
            case 1: return json::value(std::optional<std::string>(m.s));
            case 2: return json::value(std::variant<int, std::string>(m.s));
            default: return m.s.find('\0') == std::string::npos ? json::value(m.s.c_str()) : json::value(m.s);
            }
        case model::Arr: {
            std::vector<json::value> x;
            for (auto& y : m.a) x.push_back(reach(s, y));
            if (m.a.size() == 2 && s.flip()) return json::value(std::pair<json::value, json::value>(x[0], x[1]));
            if (m.a.size() == 3 && s.flip()) return json::value(std::array<json::value, 3> { x[0], x[1], x[2] });
            return s.flip() ? json::value(x) : json::value(std::list<json::value>(x.begin(), x.end()));
        }
        default: {
            std::unordered_map<std::string, json::value> x;
            for (auto& [k, y] : m.o) x.emplace(k, reach(s, y));
            return s.flip() ? json::value(x) : json::value(std::map<std::string, json::value>(x.begin(), x.end()));
        }
        }
    case 19: {
        way("as<value>");
        json::value x = reach(s, m);
        if (s.flip()) return x.as<json::value>();
        return std::move(x).as<json::value>();
    }
    case 20: {
        way("after refused operations");
        json::value x = reach(s, m);
        for (size_t n = 1 + s.below(3); n > 0; --n) {
            const size_t op = s.below(8);
            (void)said("refused", [&] {
                switch (op) {
                case 0: if (!is_empty(m) && m.k != model::Obj) x |= json::object { { "k", 1 } }; break;
                case 1: if (!is_empty(m) && m.k != model::Arr) x += json::array { json::value(1) }; break;
                case 2: if (!is_empty(m) && m.k != model::Arr) x.emplace(1); break;
                case 3: if (!is_empty(m) && m.k != model::Obj) x["k"] = 1; break;
                case 4: (void)x.as<std::tuple<int, int, int, int>>(); break;
                case 5: (void)x.as<std::vector<std::optional<bool>>>(); break;
                case 6: (void)x.as<double>(); break;
                default: (void)std::as_const(x).at("no such member"); break;
                }
            });
        }
        return x;
    }
    case 21: {
        way("erased around");
        if (m.k == model::Arr) {
            json::value x = reach(s, m);
            x.emplace("excess");
            x.erase(m.a.size());
            return x;
        }
        if (m.k == model::Obj) {
            json::value x = reach(s, m);
            if (m.o.count("excess")) return x;
            x["excess"] = 1;
            x.erase("excess");
            return x;
        }
        return mj::build(m);
    }
    case 22: {
        way("from an empty value");
        json::value x = s.pick({ json::value(), json::value(""), json::value(json::array()), json::value(json::object()) });
        if (m.k == model::Arr) {
            for (auto& y : m.a) x.emplace(mj::build(y));
            return m.a.empty() ? mj::build(m) : x;
        }
        if (m.k == model::Obj) {
            for (auto& [k, y] : m.o) x[k] = mj::build(y);
            return m.o.empty() ? mj::build(m) : x;
        }
        x = reach(s, m);
        return x;
    }
    case 23: {
        way("out of its own element");
        json::value x = json::array { reach(s, m), 1 };
        if (s.flip()) x = x[size_t(0)];
        else x = std::move(x[size_t(0)]);
        return x;
    }
    case 24: {
        way("twice moved");
        json::value x = any_other(s), y = reach(s, m), z = any_other(s);
        x = std::move(y);
        y = std::move(z);
        truth(z, z.type(), nullptr, "assigned from");
        z = std::move(x);
        truth(x, x.type(), nullptr, "assigned from");
        return z;
    }
    default: {
        way("of a container's copy");
        const json::value x = json::object { { "k", reach(s, m) }, { "l", json::value(T::invalid) } };
        json::value y = x;
        PBT_CHECK(!y.at("l").valid() && y.at("l").type() == T::invalid && x.at("l").type() == T::invalid, "a copied invalid member has another type");
        return y["k"];
    }
    }
}

// containers of their own
static void containers_say(const V& m)
{
    if (m.k == model::Arr) {
        const json::array a = mj::build(m).as_array();
        PBT_CHECK(a.size() == m.a.size() && a.empty() == m.a.empty() && (a.begin() == a.end()) == m.a.empty() && static_cast<size_t>(std::distance(a.begin(), a.end())) == a.size(), "size of " << mj::show(m));
        PBT_CHECK(a.contains(m.a.size()) == false && (m.a.empty() || (a.contains(m.a.size() - 1) && a.exists(size_t(0)))), "contains of " << mj::show(m));
        const Said e = said("array.at", [&] { (void)a.at(m.a.size()); });
        PBT_CHECK(e.threw, "at() beyond the end of " << mj::show(m));
        const auto strs = offending(m, model::Str);
        accessor(a, "array.as<vector<string>>", strs.empty(), strs, [&] { (void)a.as<std::vector<std::string>>(); });
        accessor(a, "list of an rvalue array", strs.empty(), strs, [&] { (void)static_cast<std::list<std::string>>(json::array(a)); });
        if (m.a.size() != 3) {
            accessor(a, "array.as<std::array<value, 3>>", false, { std::to_string(a.size()) }, [&] { (void)a.as<std::array<json::value, 3>>(); });
            accessor(a, "array.as<std::array<value, 3>> of an rvalue", false, { std::to_string(a.size()) }, [&] { (void)json::array(a).as<std::array<json::value, 3>>(); });
            accessor(a, "tuple of an rvalue array", false, { std::to_string(a.size()) }, [&] { (void)static_cast<std::tuple<json::value, json::value, json::value>>(json::array(a)); });
        }
    }
    if (m.k == model::Obj) {
        const json::object o = mj::build(m).as_object();
        PBT_CHECK(o.size() == m.o.size() && o.empty() == m.o.empty() && (o.begin() == o.end()) == m.o.empty(), "size of " << mj::show(m));
        const auto strs = offending(m, model::Str);
        accessor(o, "object.as<map<string, string>>", strs.empty(), strs, [&] { (void)o.as<std::map<std::string, std::string>>(); });
        accessor(o, "map of an rvalue object", strs.empty(), strs, [&] { (void)json::object(o).as<std::unordered_map<std::string, std::string>>(); });
    }
}

void property(Source& s)
{
    V m = s.chance(45) ? model::gen_root(s, 6, 3) : model::gen_any(s, 1, 1);
    if (s.chance(5)) m = s.pick({ V::null(), V::str(""), V::arr(), V::obj(), V::boolean(false), V::num("0"), V::str("red"), V::num("99999999999999999999"), V::num("1e999") });
    g_how.clear();
    note("value", model::dump(m));
    const json::value v = reach(s, m);
    const std::string how = g_how;
    note("way", how);
    truth(v, type_of(m), &m, how.c_str());
    containers(v, m, how.c_str());
    containers_say(m);
    // the text of the error outlives the value
    std::string text;
    try {
        const json::value gone = v;
        if (m.k == model::Str) (void)gone.as_boolean();
        else (void)gone.as_string();
    }
    catch (const std::exception& e) {
        text = e.what();
    }
    PBT_CHECK(text.find(name_of(type_of(m))) != std::string::npos, "an error after the end of the value says " << printable(text));
    nontrivial(hash_bytes(model::dump(m), hash_bytes(how)));
    const std::string show = model::dump(m) + " " + how;
    if (show.size() > 20 && show.size() < 200) sample(show);
}

void custom(const std::string& kind, const std::string& payload)
{
    if (kind == "invalid") {
        const json::value v(T::invalid);
        truth(v, T::invalid, nullptr, "constructed");
        json::value c(v), d(1), e("x");
        d = v;
        truth(c, T::invalid, nullptr, "copied");
        truth(d, T::invalid, nullptr, "assigned");
        e = std::move(c);
        truth(e, T::invalid, nullptr, "move assigned");
        truth(c, c.type(), nullptr, "moved-from");
        for (int i = 0; i < 6; ++i) {
            json::value x = v;
            accessor(v, "mutable access", false, { "invalid" }, [&] {
                if (i == 0) (void)x.as_array();
                else if (i == 1) (void)x.as_object();
                else if (i == 2) x.emplace(1);
                else if (i == 3) x["k"] = 1;
                else if (i == 4) x |= json::object { { "k", 1 } };
                else x += json::array { json::value(1) };
            });
            truth(x, T::invalid, nullptr, "after refused access");
        }
        std::ostringstream os;
        accessor(v, "<<", false, { "invalid" }, [&] { os << v; });
        PBT_CHECK(os.str().empty(), "an invalid value printed " << os.str());
        d.clear();
        const V null = V::null();
        truth(d, T::null, &null, "cleared");
        e = 5;
        const V five = V::num("5");
        truth(e, T::number, &five, "assigned over");
        nontrivial(1);
    }
    else if (kind == "exception") {
        PBT_CHECK(json::exception().what() && *json::exception().what(), "an exception without text says nothing");
        const json::exception e(payload);
        PBT_CHECK(e.what() == payload, "an exception says " << e.what() << " not " << payload);
        std::string text;
        try {
            throw e;
        }
        catch (const std::exception& x) {
            text = x.what();
        }
        PBT_CHECK(text == payload, "a thrown exception says " << text << " not " << payload);
        nontrivial(hash_bytes(payload));
    }
    else if (kind == "long") {
        // long texts: what is wrong is still said
        const size_t n = std::stoul(payload);
        const json::value str(std::string(n, 'x')), num(T::number, std::string(n, '9')), arr(std::vector<int>(n, 1));
        const V ms = V::str(std::string(n, 'x')), mn = V::num(std::string(n, '9'));
        truth(str, T::string, &ms, "long");
        if (n) truth(num, T::number, &mn, "long");
        if (n != 2) accessor(arr, "tuple", false, { std::to_string(n) }, [&] { (void)arr.as<std::tuple<int, int>>(); });
        nontrivial(n + 2);
    }
}
void directed()
{
    uint64_t i = 0;
    if (mine(i++)) run_custom("invalid", "");
    for (const char* t : { "x", "some text", "\xc3\xa9", "%s %n" }) {
        if (mine(i++)) run_custom("exception", t);
    }
    for (size_t n : { 0, 1, 2, 15, 16, 98, 99, 100, 101, 102, 255, 256, 1000, 4096, 70000 }) {
        if (mine(i++)) run_custom("long", std::to_string(n));
    }
}
}
