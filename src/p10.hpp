// Structs with declared members: what the generated programs of P10 share.
#pragma once
#include "types.hpp"

namespace p10
{
using namespace typed;
using model::V;

// known to JSON through a specialisation that moves
struct Moved
{
    std::string text;
    Moved() = default;
    explicit Moved(std::string t) : text(std::move(t)) {}
    bool operator==(const Moved& o) const { return text == o.text; }
};
inline thread_local size_t g_moves_to = 0, g_moves_from = 0, g_copies_to = 0, g_copies_from = 0;

template <typename S, typename T>
struct Member
{
    const char* key;
    bool optional;
    T S::*p;
    using type = T;
};
template <typename S, typename T>
inline Member<S, T> member(const char* key, bool optional, T S::*p)
{
    return { key, optional, p };
}
template <typename S>
struct Meta;
} // namespace p10

namespace json::ext
{
template <>
class jsonization<p10::Moved>
{
public:
    json::value to_json(const p10::Moved& f) const
    {
        ++p10::g_copies_to;
        return json::object { { "moved", f.text } };
    }
    json::value move_to_json(p10::Moved&& f) const
    {
        ++p10::g_moves_to;
        return json::object { { "moved", std::move(f.text) } };
    }
    bool check_json(const json::value& j) const { return j.is_object() && j.contains("moved") && j.at("moved").is_string(); }
    bool from_json(const json::value& j, p10::Moved& f) const
    {
        if (!check_json(j)) return false;
        ++p10::g_copies_from;
        f.text = j.at("moved").as_string();
        return true;
    }
    bool move_from_json(json::value&& j, p10::Moved& f) const
    {
        if (!check_json(j)) return false;
        ++p10::g_moves_from;
        f.text = j.at("moved").as_string();
        return true;
    }
};
}

namespace typed
{
template <>
struct G<p10::Moved> : Basic<p10::Moved>
{
    using P = p10::Moved;
    static P gen(Source& s) { return P(G<std::string>::gen(s)); }
    static V to_v(const P& p) { return V::obj({ { "moved", V::str(p.text) } }); }
    static bool fits(const V& v) { return v.k == model::Obj && v.o.count("moved") && v.o.at("moved").k == model::Str; }
    static P from(const V& v) { return P(v.o.at("moved").s); }
};
// every struct with a description
template <typename S>
struct G<S, std::void_t<decltype(p10::Meta<S>::members())>>
{
    template <typename F>
    static void each(F&& f)
    {
        std::apply([&](const auto&... m) { (f(m), ...); }, p10::Meta<S>::members());
    }
    static S gen(Source& s)
    {
        S r;
        each([&](const auto& m) { r.*m.p = G<typename std::decay_t<decltype(m)>::type>::gen(s); });
        return r;
    }
    static bool same(const S& a, const S& b)
    {
        bool ok = true;
        each([&](const auto& m) { ok = ok && G<typename std::decay_t<decltype(m)>::type>::same(a.*m.p, b.*m.p); });
        return ok;
    }
    static V to_v(const S& t)
    {
        V v = V::obj();
        each([&](const auto& m) { v.o[m.key] = G<typename std::decay_t<decltype(m)>::type>::to_v(t.*m.p); });
        return v;
    }
    static bool matches(const V& v, const S& t)
    {
        if (v.k != model::Obj) return false;
        size_t n = 0;
        bool ok = true;
        each([&](const auto& m) {
            ++n;
            const auto i = v.o.find(m.key);
            ok = ok && i != v.o.end() && G<typename std::decay_t<decltype(m)>::type>::matches(i->second, t.*m.p);
        });
        return ok && v.o.size() == n;
    }
    // the first key in declaration order that doesn't fit
    static std::optional<std::string> bad(const V& v)
    {
        std::optional<std::string> r;
        each([&](const auto& m) {
            if (r) return;
            const auto i = v.o.find(m.key);
            if (v.k != model::Obj || i == v.o.end()) {
                if (!m.optional) r = m.key;
            }
            else if (!G<typename std::decay_t<decltype(m)>::type>::fits(i->second)) r = m.key;
        });
        return r;
    }
    static bool fits(const V& v) { return !bad(v); }
    static void load(const V& v, S& t)
    {
        each([&](const auto& m) {
            if (v.k != model::Obj) return;
            const auto i = v.o.find(m.key);
            if (i != v.o.end()) t.*m.p = G<typename std::decay_t<decltype(m)>::type>::from(i->second);
        });
    }
    static S from(const V& v)
    {
        S t;
        load(v, t);
        return t;
    }
};
} // namespace typed

namespace p10
{
struct Case
{
    std::string name;
    void (*round_trip)(Source&);
    void (*near)(Source&);
};
inline std::vector<Case>& registry()
{
    static std::vector<Case> r;
    return r;
}

template <typename S>
void round_trip(Source& src, const char* name)
{
    using T = G<S>;
    const S s = T::gen(src);
    const V want = T::to_v(s);
    pbt::note(name, model::dump(want));
    const json::value v = s.to_json();
    const V m = mj::to_model(v);
    TYPED_CHECK(T::matches(m, s), "to_json gave " << mj::show(m) << " for " << mj::show(want));
    const V again = mj::to_model(json::value(s));
    TYPED_CHECK(again == m, "value(T) gave " << mj::show(again) << " not " << mj::show(m));
    S lv = s;
    TYPED_CHECK(json::value(lv) == v && T::same(lv, s), "value(T&) gave another value or changed the struct");
    TYPED_CHECK(json::value(std::move(lv)) == v, "value(T&&) gave another value");
    std::string key = "untouched";
    const S other = T::gen(src);
    TYPED_CHECK(s.check_json(v) && s.check_json(v, key) && key == "untouched", "check_json refused " << mj::show(m) << " because of " << key);
    S back = other;
    TYPED_CHECK(back.from_json(v) && T::same(back, s), "from_json of " << mj::show(m) << " gave " << mj::show(T::to_v(back)));
    S back2 = other;
    TYPED_CHECK(back2.from_json(v, key) && key == "untouched" && T::same(back2, s), "from_json of " << mj::show(m) << " gave " << mj::show(T::to_v(back2)) << " and " << key);
    const auto p = json::parse(v.to_string());
    TYPED_CHECK(p && *p == v, "parse of " << v.to_string());
    S back3;
    TYPED_CHECK(back3.from_json(*p) && T::same(back3, s), "from_json of the text " << v.to_string() << " gave " << mj::show(T::to_v(back3)));
    TYPED_CHECK(v.is<S>() && T::same(v.as<S>(), s) && T::same(static_cast<S>(v), s), "conversion of " << mj::show(m));
    json::value mv = v;
    TYPED_CHECK(T::same(std::move(mv).template as<S>(), s), "conversion of an rvalue " << mj::show(m));
    const json::value arr = json::value(std::vector<S> { s, other });
    TYPED_CHECK(arr.is<std::vector<S>>() && arr.as_array().size() == 2 && arr.as_array().at(0) == v && T::same(arr.as<std::vector<S>>().at(1), other), "array of structs");
    TYPED_CHECK(mj::to_model(v) == m, "reading changed the value");
    const std::string text = model::dump(m);
    pbt::nontrivial(pbt::hash_bytes(text, pbt::hash_bytes(name)));
    if (text.size() < 200) pbt::sample(std::string(name) + " " + text);
}

template <typename S>
void near(Source& src, const char* name)
{
    using T = G<S>;
    // near a valid one: members removed, mistyped, added
    V m = T::to_v(T::gen(src));
    std::vector<std::string> keys;
    T::each([&](const auto& x) { keys.push_back(x.key); });
    for (size_t n = src.weighted({ 1, 6, 5, 2 }); n > 0; --n) {
        const std::string k = src.pick(keys);
        switch (src.weighted({ 4, 3, 3, 2, 1 })) {
        case 0: m.o.erase(k); break;
        case 1: m.o[k] = src.pick({ V::null(), V::str("x"), V::num("1.5"), V::num("-1"), V::arr(), V::obj(), V::boolean(true), V::num("99999999999999999999") }); break;
        case 2:
            if (m.o.count(k)) m.o[k] = typed::near(src, m.o[k], 1);
            break;
        case 3: m.o[src.pick({ std::string("unknown"), k + " ", k + "x", std::string("M0"), std::string("_") })] = model::gen_any(src, 3, 2); break;
        default: {
            // another case of the key
            std::string u = k;
            for (char& c : u) {
                if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
            }
            if (u != k && m.o.count(k)) {
                const V x = m.o[k];
                m.o.erase(k);
                m.o[u] = x;
            }
        }
        }
    }
    if (src.chance(4)) m = model::gen_any(src, 6, 3);
    pbt::note(name, model::dump(m));
    const json::value v = mj::build(m);
    const auto bad = T::bad(m);
    pbt::label(bad ? "does not fit" : "fits");
    const S s = T::gen(src);
    std::string key = "untouched";
    TYPED_CHECK(s.check_json(v) == !bad, "check_json is " << s.check_json(v) << " for " << mj::show(m) << ", expected to be refused for " << bad.value_or("nothing"));
    TYPED_CHECK(s.check_json(v, key) == !bad, "check_json with a key for " << mj::show(m));
    TYPED_CHECK(key == bad.value_or("untouched"), "check_json of " << mj::show(m) << " reports " << key << ", expected " << bad.value_or("nothing"));
    S d = s;
    key = "untouched";
    const bool loaded = d.from_json(v, key);
    TYPED_CHECK(loaded == !bad, "from_json is " << loaded << " for " << mj::show(m) << ", expected to be refused for " << bad.value_or("nothing"));
    TYPED_CHECK(key == bad.value_or("untouched"), "from_json of " << mj::show(m) << " reports " << key << ", expected " << bad.value_or("nothing"));
    S d1 = s;
    TYPED_CHECK(d1.from_json(v) == !bad, "from_json without a key of " << mj::show(m));
    TYPED_CHECK(v.is<S>() == !bad, "is<T> of " << mj::show(m));
    if (!bad) {
        S want = s;
        T::load(m, want);
        TYPED_CHECK(T::same(d, want) && T::same(d1, want), "from_json of " << mj::show(m) << " gave " << mj::show(T::to_v(d)) << " not " << mj::show(T::to_v(want)));
        TYPED_CHECK(T::same(v.as<S>(), T::from(m)), "as of " << mj::show(m) << " gave " << mj::show(T::to_v(v.as<S>())));
    }
    else {
        for (int how = 0; how < 3; ++how) {
            bool threw = false;
            try {
                if (how == 0) (void)v.as<S>();
                else if (how == 1) (void)static_cast<S>(v);
                else {
                    json::value r = v;
                    (void)std::move(r).template as<S>();
                }
            }
            catch (const json::exception&) {
                threw = true;
            }
            TYPED_CHECK(threw, "conversion " << how << " of " << mj::show(m) << " was not refused");
        }
    }
    TYPED_CHECK(mj::to_model(v) == m, "reading changed " << mj::show(m));
    const json::value holder = json::object { { "s", v } };
    const auto f = holder.find<S>("s");
    TYPED_CHECK(f.has_value() == !bad, "find of " << mj::show(m));
    pbt::nontrivial(pbt::hash_bytes(model::dump(m), pbt::hash_bytes(name) + 1));
}

template <typename S, const char* const& Name>
struct Register
{
    Register()
    {
        registry().push_back({ Name, [](Source& s) { round_trip<S>(s, Name); }, [](Source& s) { near<S>(s, Name); } });
    }
};
#define STRUCT(S)                                     \
    static const char* const name_##S = #S;           \
    static const Register<S, name_##S> reg_##S;
} // namespace p10
