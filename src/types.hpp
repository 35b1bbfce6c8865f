// The family of types P07 and P08 look at, and the checks of one type.
#pragma once
#include "typed.hpp"

namespace types
{
using namespace typed;

enum class Color { Red, Green, Blue = 7, Neg = -3 };
enum class Small : uint8_t { A = 0, B = 100, c_lower = 5 };
enum Plain : short { plain_one = 1, plain_two = -2 };

struct Point
{
    int x = 0;
    double y = 0;
    std::optional<std::string> name;
    std::vector<int> list;
    MEO_JSONIZATION(x, y, MEO_OPT name, MEO_KEY("the list") list);
    bool operator==(const Point& o) const { return x == o.x && typed::G<double>::same(y, o.y) && name == o.name && list == o.list; }
};
struct Foreign // known to JSON through a specialisation
{
    std::string text;
    int n = 0;
    bool operator==(const Foreign& o) const { return text == o.text && n == o.n; }
};

struct Mover // the same, with a specialisation that also moves
{
    std::string text;
    std::vector<std::string> rest;
    bool operator==(const Mover& o) const { return text == o.text && rest == o.rest; }
};
struct Pair // the same, as an object, with members that hold structs
{
    Point a;
    std::map<std::string, Foreign> b;
    MEO_JSONIZATION(a, b);
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
enum class Level : long long { low = -100, mid = 0, high = 100 };

struct Case
{
    std::string name;
    void (*p07)(Source&);
    void (*p08)(Source&);
};
inline std::vector<Case>& registry()
{
    static std::vector<Case> r;
    return r;
}
} // namespace types

namespace json::ext
{
template <>
class jsonization<types::Foreign>
{
public:
    json::value to_json(const types::Foreign& f) const { return json::array { f.text, f.n }; }
    bool check_json(const json::value& j) const { return j.is<std::tuple<std::string, int>>(); }
    bool from_json(const json::value& j, types::Foreign& f) const
    {
        if (!check_json(j)) return false;
        f.text = j.as_array().at(0).as_string();
        f.n = j.as_array().at(1).as_integer();
        return true;
    }
};
template <>
class jsonization<types::Mover>
{
public:
    json::value to_json(const types::Mover& m) const { return json::object { { "text", m.text }, { "rest", m.rest } }; }
    json::value move_to_json(types::Mover m) const
    {
        json::object o;
        o.emplace("text", std::move(m.text));
        o.emplace("rest", std::move(m.rest));
        return o;
    }
    bool check_json(const json::value& j) const { return j.is_object() && j.find<std::string>("text") && j.find<std::vector<std::string>>("rest"); }
    bool from_json(const json::value& j, types::Mover& m) const
    {
        if (!check_json(j)) return false;
        m.text = j.at("text").as_string();
        m.rest = j.at("rest").as<std::vector<std::string>>();
        return true;
    }
    bool move_from_json(json::value j, types::Mover& m) const
    {
        if (!check_json(j)) return false;
        json::object o = std::move(j.as_object());
        m.text = std::move(o["text"]).as<std::string>();
        m.rest = std::move(o["rest"]).as<std::vector<std::string>>();
        return true;
    }
};
}

namespace typed
{
template <>
struct Names<types::Color>
{
    static const std::vector<std::pair<types::Color, std::string>>& list()
    {
        static const std::vector<std::pair<types::Color, std::string>> l = { { types::Color::Red, "Red" }, { types::Color::Green, "Green" }, { types::Color::Blue, "Blue" }, { types::Color::Neg, "Neg" } };
        return l;
    }
};
template <>
struct Names<types::Small>
{
    static const std::vector<std::pair<types::Small, std::string>>& list()
    {
        static const std::vector<std::pair<types::Small, std::string>> l = { { types::Small::A, "A" }, { types::Small::B, "B" }, { types::Small::c_lower, "c_lower" } };
        return l;
    }
};
template <>
struct Names<types::Plain>
{
    static const std::vector<std::pair<types::Plain, std::string>>& list()
    {
        static const std::vector<std::pair<types::Plain, std::string>> l = { { types::plain_one, "plain_one" }, { types::plain_two, "plain_two" } };
        return l;
    }
};
template <>
struct Names<types::Level>
{
    static const std::vector<std::pair<types::Level, std::string>>& list()
    {
        static const std::vector<std::pair<types::Level, std::string>> l = { { types::Level::low, "low" }, { types::Level::mid, "mid" }, { types::Level::high, "high" } };
        return l;
    }
};
template <>
struct G<types::Point>
{
    using P = types::Point;
    static P gen(Source& s)
    {
        P p;
        p.x = G<int>::gen(s);
        p.y = G<double>::gen(s);
        p.name = G<std::optional<std::string>>::gen(s);
        p.list = G<std::vector<int>>::gen(s);
        return p;
    }
    static bool same(const P& a, const P& b) { return a == b; }
    static V to_v(const P& p)
    {
        return V::obj({ { "x", G<int>::to_v(p.x) }, { "y", G<double>::to_v(p.y) }, { "name", G<std::optional<std::string>>::to_v(p.name) }, { "the list", G<std::vector<int>>::to_v(p.list) } });
    }
    static bool matches(const V& v, const P& p)
    {
        if (v.k != model::Obj || v.o.size() != 4 || !v.o.count("x") || !v.o.count("y") || !v.o.count("name") || !v.o.count("the list")) return false;
        return G<int>::matches(v.o.at("x"), p.x) && G<double>::matches(v.o.at("y"), p.y) && G<std::optional<std::string>>::matches(v.o.at("name"), p.name) && G<std::vector<int>>::matches(v.o.at("the list"), p.list);
    }
    static bool fits(const V& v)
    {
        return v.k == model::Obj && v.o.count("x") && v.o.count("y") && v.o.count("the list") && G<int>::fits(v.o.at("x")) && G<double>::fits(v.o.at("y")) && G<std::vector<int>>::fits(v.o.at("the list"))
            && (!v.o.count("name") || G<std::optional<std::string>>::fits(v.o.at("name")));
    }
    static P from(const V& v)
    {
        P p;
        p.x = G<int>::from(v.o.at("x"));
        p.y = G<double>::from(v.o.at("y"));
        p.list = G<std::vector<int>>::from(v.o.at("the list"));
        if (v.o.count("name")) p.name = G<std::optional<std::string>>::from(v.o.at("name"));
        return p;
    }
};
template <>
struct G<types::Foreign> : Basic<types::Foreign>
{
    using P = types::Foreign;
    static P gen(Source& s) { return { G<std::string>::gen(s), G<int>::gen(s) }; }
    static V to_v(const P& p) { return V::arr({ V::str(p.text), G<int>::to_v(p.n) }); }
    static bool fits(const V& v) { return v.k == model::Arr && v.a.size() == 2 && v.a[0].k == model::Str && G<int>::fits(v.a[1]); }
    static P from(const V& v) { return { v.a[0].s, G<int>::from(v.a[1]) }; }
};
template <>
struct G<types::Mover> : Basic<types::Mover>
{
    using P = types::Mover;
    using R = G<std::vector<std::string>>;
    static P gen(Source& s) { return { G<std::string>::gen(s), R::gen(s) }; }
    static V to_v(const P& p) { return V::obj({ { "text", V::str(p.text) }, { "rest", R::to_v(p.rest) } }); }
    static bool fits(const V& v) { return v.k == model::Obj && v.o.count("text") && v.o.count("rest") && v.o.at("text").k == model::Str && R::fits(v.o.at("rest")); }
    static P from(const V& v) { return { v.o.at("text").s, R::from(v.o.at("rest")) }; }
};
template <>
struct G<types::Pair>
{
    using P = types::Pair;
    using A = G<types::Point>;
    using B = G<std::map<std::string, types::Foreign>>;
    static P gen(Source& s)
    {
        P p;
        p.a = A::gen(s);
        p.b = B::gen(s);
        return p;
    }
    static bool same(const P& a, const P& b) { return a == b; }
    static V to_v(const P& p) { return V::obj({ { "a", A::to_v(p.a) }, { "b", B::to_v(p.b) } }); }
    static bool matches(const V& v, const P& p) { return v.k == model::Obj && v.o.size() == 2 && v.o.count("a") && v.o.count("b") && A::matches(v.o.at("a"), p.a) && B::matches(v.o.at("b"), p.b); }
    static bool fits(const V& v) { return v.k == model::Obj && v.o.count("a") && v.o.count("b") && A::fits(v.o.at("a")) && B::fits(v.o.at("b")); }
    static P from(const V& v)
    {
        P p;
        p.a = A::from(v.o.at("a"));
        p.b = B::from(v.o.at("b"));
        return p;
    }
};
} // namespace typed

namespace types
{
// in the default configuration floating values come back rounded
template <typename T>
inline bool came_back(const json::value& v, const T& back, const T& t)
{
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
    (void)v;
    return G<T>::same(back, t);
#else
    // exactly what the JSON says (which was compared with t before)
    (void)t;
    const V m = mj::to_model(v);
    return G<T>::fits(m) && G<T>::same(back, G<T>::from(m));
#endif
}

template <typename T>
constexpr bool is_view = std::is_same_v<T, std::string_view>;
template <typename T>
constexpr bool is_opt = false;
template <typename T>
constexpr bool is_opt<std::optional<T>> = true;
template <typename T>
constexpr bool is_opt<std::tuple<T>> = true; // constructible from what its element is
// what can be a default of get()
template <typename T>
constexpr bool copyable = std::is_copy_constructible_v<T>;
template <typename T>
constexpr bool copyable<std::vector<std::unique_ptr<T>>> = false;
template <typename T>
constexpr bool copyable<std::map<std::string, std::unique_ptr<T>>> = false;
template <typename C>
constexpr bool array_type = false;
template <typename T> constexpr bool array_type<std::vector<T>> = true;
template <typename T> constexpr bool array_type<std::deque<T>> = true;
template <typename T> constexpr bool array_type<std::list<T>> = true;
template <typename T> constexpr bool array_type<std::set<T>> = true;
template <typename T> constexpr bool array_type<std::multiset<T>> = true;
template <typename T> constexpr bool array_type<std::unordered_set<T>> = true;
template <typename T> constexpr bool array_type<std::unordered_multiset<T>> = true;
template <typename T, typename C> constexpr bool array_type<std::set<T, C>> = true;
template <typename T, size_t N> constexpr bool array_type<std::array<T, N>> = true;
template <typename... T> constexpr bool array_type<std::tuple<T...>> = true;
template <typename A, typename B> constexpr bool array_type<std::pair<A, B>> = true;
template <typename C>
constexpr bool object_type = false;
template <typename T> constexpr bool object_type<std::map<std::string, T>> = true;
template <typename T> constexpr bool object_type<std::map<std::string, T, std::greater<std::string>>> = true;
template <typename T> constexpr bool object_type<std::unordered_map<std::string, T>> = true;

// a copy, also of types that only move
template <typename T>
inline T clone(const T& t)
{
    if constexpr (std::is_copy_constructible_v<T>) return t;
    else return t ? T(new typename T::element_type(*t)) : T();
}
template <typename T>
inline std::vector<std::unique_ptr<T>> clone(const std::vector<std::unique_ptr<T>>& t)
{
    std::vector<std::unique_ptr<T>> r;
    for (auto& x : t) r.push_back(clone(x));
    return r;
}
template <typename T>
inline std::map<std::string, std::unique_ptr<T>> clone(const std::map<std::string, std::unique_ptr<T>>& t)
{
    std::map<std::string, std::unique_ptr<T>> r;
    for (auto& [k, x] : t) r.emplace(k, clone(x));
    return r;
}

template <typename T>
inline std::string show(const T& t)
{
    return pbt::printable(model::dump(G<T>::to_v(t)), 600);
}

#define TYPED_CHECK(cond, ...) PBT_CHECK(cond, name << ": " << __VA_ARGS__)

template <typename T, const char* const& Name>
void check_p07(Source& s)
{
    const char* const name = Name;
    T t = G<T>::gen(s);
    const T kept = clone(t);
    pbt::note(name, model::dump(G<T>::to_v(t)));

    // an lvalue, const or not, is not changed and says the same as an rvalue
    const json::value v(t);
    TYPED_CHECK(G<T>::same(t, kept), "building a value changed " << show(kept) << " to " << show(t));
    const V m = mj::to_model(v);
    TYPED_CHECK(G<T>::matches(m, t), show(t) << " became " << mj::show(m));
    const json::value vc(kept);
    TYPED_CHECK(vc == v, "a const lvalue gives another value: " << mj::show(mj::to_model(vc)) << " and " << mj::show(m));
    T moved = clone(t);
    const json::value vm(std::move(moved));
    TYPED_CHECK(vm == v, "an rvalue gives another value: " << mj::show(mj::to_model(vm)) << " and " << mj::show(m));
    const json::value vi = clone(t);
    TYPED_CHECK(vi == v, "implicit conversion gives another value: " << mj::show(mj::to_model(vi)) << " and " << mj::show(m));
    json::value va(true);
    va = t;
    TYPED_CHECK(va == v, "assignment gives another value: " << mj::show(mj::to_model(va)) << " and " << mj::show(m));
    json::object o;
    o["k"] = t;
    json::array a;
    a.emplace_back(t);
    a.push_back(clone(t));
    TYPED_CHECK(o.at("k") == v && a.at(0) == v && a.at(1) == v, "insertion gives another value: " << o.to_string() << a.to_string());
    TYPED_CHECK(G<T>::same(t, kept), "insertion changed " << show(kept) << " to " << show(t));

    // and back
    TYPED_CHECK(v.is<T>(), mj::show(m) << " is not of the type it was built from");
    TYPED_CHECK(came_back(v, v.as<T>(), t), mj::show(m) << " gave " << show(v.as<T>()));
    if constexpr (!is_opt<T>) {
        TYPED_CHECK(came_back(v, static_cast<T>(v), t), "cast: " << mj::show(m) << " gave " << show(static_cast<T>(v)));
    }
    TYPED_CHECK(mj::to_model(v) == m, "converting changed the value " << mj::show(m));
    if constexpr (!is_view<T>) {
        json::value r = v;
        const T back = std::move(r).as<T>();
        TYPED_CHECK(came_back(v, back, t), "from an rvalue: " << mj::show(m) << " gave " << show(back));
        if constexpr (!is_opt<T>) {
            json::value q = v;
            const T cast = static_cast<T>(std::move(q));
            TYPED_CHECK(came_back(v, cast, t), "cast of an rvalue: " << mj::show(m) << " gave " << show(cast));
            json::value l = v;
            TYPED_CHECK(came_back(v, static_cast<T>(l), t), "cast of a non-const value: " << mj::show(m));
            TYPED_CHECK(l == v, "casting a non-const lvalue changed the value " << mj::show(m));
        }
    }
    // through the text
    const std::string text = json::array { v }.to_string();
    const std::optional<json::value> p = json::parse(text);
    TYPED_CHECK(p && p->is_array(), "the text is not parsed: " << pbt::printable(text));
    const json::value& pv = p->as_array().at(0);
    TYPED_CHECK(pv == v, "the text gives another value: " << pbt::printable(text));
    TYPED_CHECK(pv.is<T>() && came_back(v, pv.as<T>(), t), "through " << pbt::printable(text));

    if constexpr (array_type<T>) {
        const json::array d(t);
        TYPED_CHECK(json::value(d) == v, "array(T) gives " << pbt::printable(d.to_string()));
        TYPED_CHECK(came_back(v, d.as<T>(), t), "array::as() of " << mj::show(m));
        if constexpr (!is_opt<T>) TYPED_CHECK(came_back(v, static_cast<T>(d), t), "array cast of " << mj::show(m));
        TYPED_CHECK(json::value(d) == v, "converting changed the array " << mj::show(m));
        json::array e(clone(t));
        TYPED_CHECK(e == d, "array(T&&) gives " << pbt::printable(e.to_string()));
        const T back = std::move(e).as<T>();
        TYPED_CHECK(came_back(v, back, t), "array::as() && of " << mj::show(m));
        json::array f;
        f = clone(t);
        TYPED_CHECK(f == d, "array = T gives " << pbt::printable(f.to_string()));
        if constexpr (!is_opt<T>) TYPED_CHECK(came_back(v, static_cast<T>(std::move(f)), t), "array cast && of " << mj::show(m));
        TYPED_CHECK(G<T>::same(t, kept), "building an array changed " << show(kept) << " to " << show(t));
    }
    if constexpr (object_type<T>) {
        const json::object d(t);
        TYPED_CHECK(json::value(d) == v, "object(T) gives " << pbt::printable(d.to_string()));
        TYPED_CHECK(came_back(v, d.as<T>(), t), "object::as() of " << mj::show(m));
        TYPED_CHECK(came_back(v, static_cast<T>(d), t), "object cast of " << mj::show(m));
        TYPED_CHECK(json::value(d) == v, "converting changed the object " << mj::show(m));
        json::object e(clone(t));
        TYPED_CHECK(e == d, "object(T&&) gives " << pbt::printable(e.to_string()));
        const T back = std::move(e).as<T>();
        TYPED_CHECK(came_back(v, back, t), "object::as() && of " << mj::show(m));
        json::object f;
        f = clone(t);
        TYPED_CHECK(f == d, "object = T gives " << pbt::printable(f.to_string()));
        TYPED_CHECK(G<T>::same(t, kept), "building an object changed " << show(kept) << " to " << show(t));
    }
    const std::string shown = model::dump(m);
    if (shown.size() > 4) pbt::nontrivial(pbt::hash_bytes(shown, pbt::hash_bytes(name)));
    if (shown.size() > 12 && shown.size() < 120) pbt::sample(std::string(name) + " " + shown);
}

template <typename T, const char* const& Name>
void check_p08(Source& s)
{
    const char* const name = Name;
    const V m = gen_near<T>(s);
    pbt::note(name, model::dump(m));
    const json::value v = mj::build(m);
    const bool fits = G<T>::fits(m);
    pbt::label(fits ? "fits" : "does not fit");
    pbt::nontrivial(pbt::hash_bytes(model::dump(m), pbt::hash_bytes(name)));
    if (s.size() > 30 && model::dump(m).size() < 100) pbt::sample(std::string(name) + (fits ? " from " : " not from ") + model::dump(m));

    TYPED_CHECK(v.is<T>() == fits, "is() is " << v.is<T>() << " for " << mj::show(m));
    const auto refused = [&](const char* how, auto&& f) {
        try {
            f();
        }
        catch (const json::exception& e) {
            TYPED_CHECK(e.what() && *e.what(), how << ": an exception that says nothing for " << mj::show(m));
            return true;
        }
        catch (const pbt::Failure&) {
            throw;
        }
        catch (const std::exception& e) {
            TYPED_CHECK(false, how << " threw " << pbt::describe_current_exception() << " (" << e.what() << ") for " << mj::show(m));
        }
        return false;
    };
    if (fits) {
        const T expected = G<T>::from(m);
        TYPED_CHECK(!refused("as", [&] { TYPED_CHECK(G<T>::same(v.as<T>(), expected), mj::show(m) << " gave " << show(v.as<T>())); }), "as() refused " << mj::show(m));
        if constexpr (!is_opt<T>) {
            TYPED_CHECK(!refused("cast", [&] { TYPED_CHECK(G<T>::same(static_cast<T>(v), expected), "cast: " << mj::show(m) << " gave " << show(static_cast<T>(v))); }), "a cast refused " << mj::show(m));
        }
        if constexpr (!is_view<T>) {
            TYPED_CHECK(!refused("as &&", [&] {
                json::value r = v;
                const T got = std::move(r).as<T>();
                TYPED_CHECK(G<T>::same(got, expected), "rvalue: " << mj::show(m) << " gave " << show(got));
            }), "as() && refused " << mj::show(m));
        }
    }
    else {
        // rvalue casts: mutable access turns empty values into the container it asks for
        if constexpr (!is_opt<T> && !is_view<T>) {
            if (!v.empty()) {
                TYPED_CHECK(refused("rvalue cast", [&] {
                    json::value r = v;
                    (void)static_cast<T>(std::move(r));
                }), "a cast of an rvalue converted " << mj::show(m));
            }
        }
        TYPED_CHECK(refused("as", [&] { (void)v.as<T>(); }), "as() converted " << mj::show(m));
        if constexpr (!is_opt<T>) {
            TYPED_CHECK(refused("cast", [&] { (void)static_cast<T>(v); }), "a cast converted " << mj::show(m));
        }
        if constexpr (!is_view<T>) {
            TYPED_CHECK(refused("as &&", [&] {
                json::value r = v;
                (void)std::move(r).as<T>();
            }), "as() && converted " << mj::show(m));
        }
    }
    // arrays and objects convert themselves
    const auto container = [&](const auto& c) {
        using C = std::decay_t<decltype(c)>;
        const auto check = [&](const char* how, auto&& get) {
            const bool r = refused(how, [&] {
                const T got = get();
                TYPED_CHECK(!fits || G<T>::same(got, G<T>::from(m)), how << ": " << mj::show(m) << " gave " << show(got));
            });
            TYPED_CHECK(r != fits, how << (r ? " refused " : " converted ") << mj::show(m));
            TYPED_CHECK(mj::to_model(json::value(c)) == m, how << " changed " << mj::show(m));
        };
        check("as() of the container", [&] { return c.template as<T>(); });
        check("as() && of the container", [&] {
            C copy = c;
            return std::move(copy).template as<T>();
        });
        if constexpr (!is_opt<T>) {
            check("cast of the container", [&] { return static_cast<T>(c); });
            check("cast of an rvalue container", [&] {
                C copy = c;
                return static_cast<T>(std::move(copy));
            });
        }
    };
    if constexpr (array_type<T>) {
        if (m.k == model::Arr) container(v.as_array());
    }
    if constexpr (object_type<T>) {
        if (m.k == model::Obj) container(v.as_object());
    }
    TYPED_CHECK(mj::to_model(v) == m, "the test or conversion changed " << mj::show(m));

    // lookups with conversion
    json::array a { v, json::value("other") };
    json::object o { { "k", v }, { "z", json::value("other") } };
    const json::value va = a, vo = o;
    const bool all_expected = fits && G<T>::fits(V::str("other"));
    TYPED_CHECK(a.all<T>() == all_expected && va.all<T>() == all_expected, "all() of the array of " << mj::show(m) << " and \"other\"");
    TYPED_CHECK(o.all<T>() == all_expected && vo.all<T>() == all_expected, "all() of the object of " << mj::show(m) << " and \"other\"");
    TYPED_CHECK(json::array { v }.all<T>() == fits && (json::object { { "k", v } }.all<T>()) == fits, "all() of one element " << mj::show(m));
    bool all_inner = m.k == model::Arr || m.k == model::Obj;
    for (auto& x : m.a) all_inner = all_inner && G<T>::fits(x);
    for (auto& [k, x] : m.o) all_inner = all_inner && G<T>::fits(x);
    TYPED_CHECK(v.all<T>() == all_inner, "all() of " << mj::show(m));

    const auto found = [&](const char* how, const auto& f) {
        TYPED_CHECK(f.has_value() == fits, how << ": has_value is " << f.has_value() << " for " << mj::show(m));
        if (f) TYPED_CHECK(G<T>::same(*f, G<T>::from(m)), how << ": " << mj::show(m) << " gave " << show(*f));
    };
    found("array find", a.find<T>(0));
    found("object find", o.find<T>("k"));
    found("value find(pos)", va.find<T>(0));
    found("value find(key)", vo.find<T>("k"));
    TYPED_CHECK(!a.find<T>(2) && !o.find<T>("kk") && !va.find<T>(2) && !vo.find<T>("") && !va.find<T>("k") && !vo.find<T>(0), "find of something absent");

    if constexpr (copyable<T>) {
        const T def = G<T>::gen(s);
        const T expected = fits ? G<T>::from(m) : def;
        const auto got = [&](const char* how, const auto& g) {
            TYPED_CHECK(G<T>::same(T(g), expected), how << " with default " << show(def) << " of " << mj::show(m) << " gave " << show(T(g)));
        };
        got("array get", a.get(0, def));
        got("object get", o.get("k", def));
        got("value get(pos)", va.get(0, def));
        got("value get(key)", vo.get("k", def));
        const json::value deep = json::array { json::object { { "p", a }, { "q", o } } };
        got("deep get to an array", deep.get(0, "p", 0, def));
        got("deep get to an object", deep.get(0, "q", "k", def));
        TYPED_CHECK(G<T>::same(T(deep.get(0, "p", 2, def)), def) && G<T>::same(T(deep.get(0, "x", "k", def)), def) && G<T>::same(T(deep.get("p", 0, def)), def) && G<T>::same(T(deep.get(0, 0, def)), def), "get of something absent is not the default");
    }
}

template <typename T, const char* const& Name>
struct Register
{
    Register(bool round_trip) { registry().push_back({ Name, round_trip ? &check_p07<T, Name> : nullptr, &check_p08<T, Name> }); }
};
#define TYPE_CAT2(a, b) a##b
#define TYPE_CAT(a, b) TYPE_CAT2(a, b)
#define TYPE_REG(rt, ...)                                                              \
    static const char* const TYPE_CAT(type_name_, __LINE__) = #__VA_ARGS__;            \
    static const Register<__VA_ARGS__, TYPE_CAT(type_name_, __LINE__)> TYPE_CAT(reg_, __LINE__)(rt);
#define TYPE(...) TYPE_REG(true, __VA_ARGS__)
// not injective: conversions only
#define TYPE_IN(...) TYPE_REG(false, __VA_ARGS__)
} // namespace types
