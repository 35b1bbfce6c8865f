// C++ types that convert to and from JSON: how to generate values, what JSON they are, which JSON fits
// them and what it denotes. Written from the documented conversions, without using meojson's own.
#pragma once

#include "mj.hpp"

#include <array>
#include <charconv>
#include <deque>
#include <filesystem>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace typed
{
using model::V;
using pbt::Source;

// ---------------------------------------------------------------- numbers
inline bool integer_text(const std::string& s)
{
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size()) return false;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return false;
    }
    return true;
}
// the exact value, if it fits: nothing else than digit arithmetic
template <typename T>
inline std::optional<T> exact_integer(const std::string& s)
{
    if (!integer_text(s)) return std::nullopt;
    const bool neg = s[0] == '-';
    if (neg && std::is_unsigned_v<T>) return std::nullopt; // also "-0"
    unsigned __int128 m = 0;
    for (size_t i = neg; i < s.size(); ++i) {
        m = m * 10 + static_cast<unsigned>(s[i] - '0');
        if (m > (static_cast<unsigned __int128>(1) << 100)) return std::nullopt;
    }
    const __int128 x = neg ? -static_cast<__int128>(m) : static_cast<__int128>(m);
    if (x < static_cast<__int128>(std::numeric_limits<T>::min()) || x > static_cast<__int128>(std::numeric_limits<T>::max())) return std::nullopt;
    return static_cast<T>(x);
}
// decimal exponent of the first non-zero digit; false: zero
inline bool magnitude(const std::string& s, long long& e10)
{
    long long exp = 0;
    size_t e = s.find_first_of("eE");
    if (e != std::string::npos) {
        std::string t = s.substr(e + 1);
        bool neg = false;
        if (t[0] == '+' || t[0] == '-') {
            neg = t[0] == '-';
            t.erase(0, 1);
        }
        for (char c : t) exp = std::min<long long>(exp * 10 + (c - '0'), 100000000);
        if (neg) exp = -exp;
    }
    else e = s.size();
    const size_t dot = std::min(s.find('.'), e);
    for (size_t i = 0; i < e; ++i) {
        if (s[i] >= '1' && s[i] <= '9') {
            e10 = exp + (i < dot ? static_cast<long long>(dot - i) - 1 : -static_cast<long long>(i - dot));
            return true;
        }
    }
    return false;
}
// the nearest value of T, nothing if it is beyond the largest finite one
template <typename T>
inline std::optional<T> nearest(const std::string& s)
{
    long long e10 = 0;
    if (!magnitude(s, e10)) return s[0] == '-' ? -T(0) : T(0);
    if constexpr (std::is_same_v<T, long double>) {
        const long double r = std::strtold(s.c_str(), nullptr);
        if (std::isinf(r)) return std::nullopt;
        return r;
    }
    else {
        T r {};
        const auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), r);
        if (ec == std::errc::result_out_of_range) {
            if (e10 > 0) return std::nullopt;
            // underflow: zero or the smallest subnormal
            return static_cast<T>(std::is_same_v<T, float> ? std::strtof(s.c_str(), nullptr) : std::strtod(s.c_str(), nullptr));
        }
        if (std::isinf(r)) return std::nullopt;
        return r;
    }
}

inline std::string int128_text(__int128 x)
{
    const bool neg = x < 0;
    unsigned __int128 m = neg ? -static_cast<unsigned __int128>(x) : static_cast<unsigned __int128>(x);
    std::string r;
    do r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(m % 10)));
    while (m /= 10);
    return neg ? "-" + r : r;
}

// ---------------------------------------------------------------- the trait
// gen(s)        a value
// same(a, b)    equality
// to_v(t)       its JSON (numbers: one of the texts)
// matches(v, t) v is JSON of t, up to the text of numbers
// fits(v)       v can be converted
// from(v)       what v denotes, provided it fits
template <typename T, typename = void>
struct G;

template <typename T>
struct Basic
{
    static bool same(const T& a, const T& b) { return a == b; }
    static bool matches(const V& v, const T& t) { return v == G<T>::to_v(t); }
};

template <>
struct G<bool> : Basic<bool>
{
    static bool gen(Source& s) { return s.flip(); }
    static V to_v(bool b) { return V::boolean(b); }
    static bool fits(const V& v) { return v.k == model::Bool; }
    static bool from(const V& v) { return v.b; }
};
template <typename T>
struct G<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : Basic<T>
{
    static T gen(Source& s)
    {
        using L = std::numeric_limits<T>;
        switch (s.weighted({ 4, 2, 2, 3 })) {
        case 0: return static_cast<T>(s.range(std::is_signed_v<T> ? -9 : 0, 100));
        case 1: return s.pick({ L::min(), L::max(), static_cast<T>(L::max() - 1), static_cast<T>(L::min() + 1), T(0), T(1), static_cast<T>(-1) });
        case 2: return static_cast<T>(T(1) << s.below(sizeof(T) * 8 - 1));
        default: return static_cast<T>(s.bits() >> s.below(64));
        }
    }
    static V to_v(T t)
    {
        // digits by hand
        std::string r;
        const bool neg = t < 0;
        unsigned __int128 m = neg ? -static_cast<__int128>(t) : static_cast<__int128>(t);
        do r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(m % 10)));
        while (m /= 10);
        return V::num(neg ? "-" + r : r);
    }
    static bool fits(const V& v) { return v.k == model::Num && exact_integer<T>(v.s); }
    static T from(const V& v) { return *exact_integer<T>(v.s); }
};
template <typename T>
struct G<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static T gen(Source& s)
    {
        using L = std::numeric_limits<T>;
        switch (s.weighted({ 4, 2, 3, 2, 2 })) {
        case 0: return static_cast<T>(s.range(-100, 100)) / 4;
        case 1: return s.pick({ L::min(), L::max(), -L::max(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(0), -T(0), T(0.1), static_cast<T>(1e22), T(0.30000000000000004), static_cast<T>(5e-324), std::nextafter(T(1), T(2)), std::nextafter(T(1), T(0)), static_cast<T>(9007199254740993.0) });
        case 2: { // any bits of the mantissa, moderate exponent
            const T m = static_cast<T>(static_cast<long double>(s.bits()) / 18446744073709551616.0L + 1);
            return std::ldexp(s.flip() ? m : -m, static_cast<int>(s.range(-70, 70)));
        }
        case 3: { // any exponent
            const T m = static_cast<T>(static_cast<long double>(s.bits() >> 1) / 18446744073709551616.0L + 0.5L);
            const T r = std::ldexp(m, static_cast<int>(s.range(L::min_exponent - L::digits, L::max_exponent)));
            return std::isfinite(r) ? (s.flip() ? r : -r) : L::max();
        }
        default: return static_cast<T>(s.range(-1000000000, 1000000000)) / static_cast<T>(s.pick({ 1, 10, 1000, 1000000, 3, 7 }));
        }
    }
    static bool same(T a, T b) { return a == b && std::signbit(a) == std::signbit(b); }
    static V to_v(T t)
    {
        char b[64];
        snprintf(b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, static_cast<long double>(t));
        return V::num(b);
    }
    static bool matches(const V& v, T t)
    {
        if (v.k != model::Num) return false;
        const auto wrapped = model::parse("[" + v.s + "]", false);
        if (!wrapped || wrapped->a.size() != 1 || wrapped->a[0].k != model::Num) return false;
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        const std::optional<T> r = nearest<T>(v.s);
        return r && same(*r, t);
#else
        // six decimals, correctly rounded from the exact value
        return near(std::strtold(v.s.c_str(), nullptr), t) && v.s.find_first_of("eE") == std::string::npos;
#endif
    }
    // within the printed precision
    static bool near(long double a, T t)
    {
        const long double d = a > t ? a - t : t - a;
        return d <= 0.5000001e-6L + std::fabs(static_cast<long double>(t)) * std::numeric_limits<T>::epsilon();
    }
    static bool same_printed(T a, T b)
    {
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        return same(a, b);
#else
        return near(a, b);
#endif
    }
    static bool fits(const V& v) { return v.k == model::Num && nearest<T>(v.s); }
    static T from(const V& v) { return *nearest<T>(v.s); }
};
template <>
struct G<std::string> : Basic<std::string>
{
    static std::string gen(Source& s) { return model::gen_string(s); }
    static V to_v(const std::string& t) { return V::str(t); }
    static bool fits(const V& v) { return v.k == model::Str; }
    static std::string from(const V& v) { return v.s; }
};
template <>
struct G<std::string_view> : Basic<std::string_view>
{
    static V to_v(std::string_view t) { return V::str(std::string(t)); }
    static bool fits(const V& v) { return v.k == model::Str; }
    static std::string_view from(const V& v) { return v.s; }
    static std::string_view gen(Source& s)
    {
        return s.pick({ std::string_view("text"), std::string_view(""), std::string_view("a\"b\\c\n", 6), std::string_view("z\0z", 3), std::string_view("\xc3\xa9\xff") });
    }
};
template <>
struct G<std::filesystem::path> : Basic<std::filesystem::path>
{
    static std::filesystem::path gen(Source& s) { return s.flip() ? std::filesystem::path("/tmp/a dir/\xc3\xa9.txt") : std::filesystem::path(model::gen_string(s)); }
    static bool same(const std::filesystem::path& a, const std::filesystem::path& b) { return a.native() == b.native(); }
    static V to_v(const std::filesystem::path& t) { return V::str(t.native()); }
    static bool fits(const V& v) { return v.k == model::Str; }
    static std::filesystem::path from(const V& v) { return v.s; }
};
template <typename T>
struct G<T, std::enable_if_t<std::is_same_v<T, std::nullptr_t> || std::is_same_v<T, std::monostate>>> : Basic<T>
{
    static T gen(Source&) { return T(); }
    static V to_v(const T&) { return V::null(); }
    static bool fits(const V& v) { return v.k == model::Null; }
    static T from(const V&) { return T(); }
};

// ---- enums: name table per type
template <typename E>
struct Names; // static const std::vector<std::pair<E, std::string>>& list()
inline std::string lower(std::string s)
{
    for (char& c : s) {
        if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    }
    return s;
}
template <typename T>
struct G<T, std::enable_if_t<std::is_enum_v<T>>> : Basic<T>
{
    using U = std::underlying_type_t<T>;
    static T gen(Source& s) { return s.pick(Names<T>::list()).first; }
    static V to_v(T t)
    {
        for (auto& [e, n] : Names<T>::list()) {
            if (e == t) return V::str(n);
        }
        pbt::fail("no name");
    }
    static const T* find(const std::string& s)
    {
        for (auto& [e, n] : Names<T>::list()) {
            if (n == s) return &e;
        }
        for (auto& [e, n] : Names<T>::list()) {
            if (lower(n) == lower(s)) return &e;
        }
        return nullptr;
    }
    static bool fits(const V& v) { return v.k == model::Str ? find(v.s) != nullptr : v.k == model::Num && exact_integer<U>(v.s); }
    static T from(const V& v) { return v.k == model::Str ? *find(v.s) : static_cast<T>(*exact_integer<U>(v.s)); }
};

// ---- json types
template <>
struct G<json::value> : Basic<json::value>
{
    static json::value gen(Source& s) { return mj::build(model::gen_any(s, 6, 3)); }
    static V to_v(const json::value& t) { return mj::to_model(t); }
    static bool fits(const V&) { return true; }
    static json::value from(const V& v) { return mj::build(v); }
};
template <>
struct G<json::array> : Basic<json::array>
{
    static json::array gen(Source& s)
    {
        json::array a;
        while (s.more(3)) a.push_back(mj::build(model::gen_any(s, 4, 3)));
        return a;
    }
    static V to_v(const json::array& t) { return mj::to_model(json::value(t)); }
    static bool fits(const V& v) { return v.k == model::Arr; }
    static json::array from(const V& v) { return static_cast<const json::value&>(mj::build(v)).as_array(); }
};
template <>
struct G<json::object> : Basic<json::object>
{
    static json::object gen(Source& s)
    {
        json::object o;
        while (s.more(3)) o[model::gen_key(s)] = mj::build(model::gen_any(s, 4, 3));
        return o;
    }
    static V to_v(const json::object& t) { return mj::to_model(json::value(t)); }
    static bool fits(const V& v) { return v.k == model::Obj; }
    static json::object from(const V& v) { return static_cast<const json::value&>(mj::build(v)).as_object(); }
};

// ---- nullable wrappers
template <typename T>
struct G<std::optional<T>>
{
    using O = std::optional<T>;
    static O gen(Source& s) { return s.chance(70) ? O(G<T>::gen(s)) : O(); }
    static bool same(const O& a, const O& b) { return a.has_value() == b.has_value() && (!a || G<T>::same(*a, *b)); }
    static V to_v(const O& t) { return t ? G<T>::to_v(*t) : V::null(); }
    static bool matches(const V& v, const O& t) { return t ? G<T>::matches(v, *t) : v.k == model::Null; }
    static bool fits(const V& v) { return v.k == model::Null || G<T>::fits(v); }
    static O from(const V& v) { return v.k == model::Null ? O() : O(G<T>::from(v)); }
};
template <typename P, typename T>
struct Pointer
{
    static P make(T t) { return P(new T(std::move(t))); }
    static P gen(Source& s) { return s.chance(70) ? make(G<T>::gen(s)) : P(); }
    static bool same(const P& a, const P& b) { return !a == !b && (!a || G<T>::same(*a, *b)); }
    static V to_v(const P& t) { return t ? G<T>::to_v(*t) : V::null(); }
    static bool matches(const V& v, const P& t) { return t ? G<T>::matches(v, *t) : v.k == model::Null; }
    static bool fits(const V& v) { return v.k == model::Null || G<T>::fits(v); }
    static P from(const V& v) { return v.k == model::Null ? P() : make(G<T>::from(v)); }
};
template <typename T>
struct G<std::shared_ptr<T>> : Pointer<std::shared_ptr<T>, T>
{
};
template <typename T>
struct G<std::unique_ptr<T>> : Pointer<std::unique_ptr<T>, T>
{
};

// ---- containers
template <typename C>
struct Sequence
{
    using T = typename C::value_type;
    static C gen(Source& s)
    {
        C c;
        while (s.more(3)) c.insert(c.end(), G<T>::gen(s));
        return c;
    }
    static bool same(const C& a, const C& b)
    {
        auto i = a.begin(), j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) {
            if (!G<T>::same(*i, *j)) return false;
        }
        return i == a.end() && j == b.end();
    }
    static V to_v(const C& t)
    {
        V v = V::arr();
        for (const auto& x : t) v.a.push_back(G<T>::to_v(x));
        return v;
    }
    static bool matches(const V& v, const C& t)
    {
        if (v.k != model::Arr) return false;
        size_t i = 0;
        for (const auto& x : t) {
            if (i >= v.a.size() || !G<T>::matches(v.a[i++], x)) return false;
        }
        return i == v.a.size();
    }
    static bool fits(const V& v)
    {
        if (v.k != model::Arr) return false;
        for (auto& x : v.a) {
            if (!G<T>::fits(x)) return false;
        }
        return true;
    }
    static C from(const V& v)
    {
        C c;
        for (auto& x : v.a) c.insert(c.end(), G<T>::from(x));
        return c;
    }
};
template <typename T> struct G<std::vector<T>> : Sequence<std::vector<T>> {};
template <typename T> struct G<std::deque<T>> : Sequence<std::deque<T>> {};
template <typename T> struct G<std::list<T>> : Sequence<std::list<T>> {};
template <typename T> struct G<std::set<T>> : Sequence<std::set<T>> {};
template <typename T> struct G<std::multiset<T>> : Sequence<std::multiset<T>> {};
template <typename T>
struct G<std::unordered_set<T>> : Sequence<std::unordered_set<T>>
{
    static bool same(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { return a == b; }
};
template <typename T>
struct G<std::unordered_multiset<T>> : Sequence<std::unordered_multiset<T>>
{
    static bool same(const std::unordered_multiset<T>& a, const std::unordered_multiset<T>& b) { return a == b; }
};
template <typename T> struct G<std::set<T, std::greater<T>>> : Sequence<std::set<T, std::greater<T>>> {};
template <typename T, size_t N>
struct G<std::array<T, N>>
{
    using C = std::array<T, N>;
    static C gen(Source& s)
    {
        C c {};
        for (auto& x : c) x = G<T>::gen(s);
        return c;
    }
    static bool same(const C& a, const C& b) { return Sequence<C>::same(a, b); }
    static V to_v(const C& t) { return Sequence<C>::to_v(t); }
    static bool matches(const V& v, const C& t) { return Sequence<C>::matches(v, t); }
    static bool fits(const V& v) { return v.k == model::Arr && v.a.size() == N && Sequence<C>::fits(v); }
    static C from(const V& v)
    {
        C c {};
        for (size_t i = 0; i < N; ++i) c[i] = G<T>::from(v.a[i]);
        return c;
    }
};
template <typename C>
struct Tuple
{
    static constexpr size_t N = std::tuple_size_v<C>;
    using Seq = std::make_index_sequence<N>;
    template <size_t I> using E = std::decay_t<std::tuple_element_t<I, C>>;
    template <size_t... I> static C gen(Source& s, std::index_sequence<I...>)
    {
        C c {};
        ((std::get<I>(c) = G<E<I>>::gen(s)), ...);
        return c;
    }
    static C gen(Source& s) { return gen(s, Seq()); }
    template <size_t... I> static bool same(const C& a, const C& b, std::index_sequence<I...>) { return (G<E<I>>::same(std::get<I>(a), std::get<I>(b)) && ...); }
    static bool same(const C& a, const C& b) { return same(a, b, Seq()); }
    template <size_t... I> static V to_v(const C& t, std::index_sequence<I...>) { return V::arr({ G<E<I>>::to_v(std::get<I>(t))... }); }
    static V to_v(const C& t) { return to_v(t, Seq()); }
    template <size_t... I> static bool matches(const V& v, const C& t, std::index_sequence<I...>) { return v.k == model::Arr && v.a.size() == N && (G<E<I>>::matches(v.a[I], std::get<I>(t)) && ...); }
    static bool matches(const V& v, const C& t) { return matches(v, t, Seq()); }
    template <size_t... I> static bool fits(const V& v, std::index_sequence<I...>) { return v.k == model::Arr && v.a.size() == N && (G<E<I>>::fits(v.a[I]) && ...); }
    static bool fits(const V& v) { return fits(v, Seq()); }
    template <size_t... I> static C from(const V& v, std::index_sequence<I...>)
    {
        C c {};
        ((std::get<I>(c) = G<E<I>>::from(v.a[I])), ...);
        return c;
    }
    static C from(const V& v) { return from(v, Seq()); }
};
template <typename... Ts> struct G<std::tuple<Ts...>> : Tuple<std::tuple<Ts...>> {};
template <typename A, typename B> struct G<std::pair<A, B>> : Tuple<std::pair<A, B>> {};

template <typename C>
struct Map
{
    using T = typename C::mapped_type;
    static C gen(Source& s)
    {
        C c;
        while (s.more(3)) c.emplace(model::gen_key(s), G<T>::gen(s));
        return c;
    }
    static bool same(const C& a, const C& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& [k, x] : a) {
            auto i = b.find(k);
            if (i == b.end() || !G<T>::same(x, i->second)) return false;
        }
        return true;
    }
    static V to_v(const C& t)
    {
        V v = V::obj();
        for (auto& [k, x] : t) v.o[k] = G<T>::to_v(x);
        return v;
    }
    static bool matches(const V& v, const C& t)
    {
        if (v.k != model::Obj || v.o.size() != t.size()) return false;
        for (auto& [k, x] : t) {
            auto i = v.o.find(k);
            if (i == v.o.end() || !G<T>::matches(i->second, x)) return false;
        }
        return true;
    }
    static bool fits(const V& v)
    {
        if (v.k != model::Obj) return false;
        for (auto& [k, x] : v.o) {
            if (!G<T>::fits(x)) return false;
        }
        return true;
    }
    static C from(const V& v)
    {
        C c;
        for (auto& [k, x] : v.o) c.emplace(k, G<T>::from(x));
        return c;
    }
};
template <typename T> struct G<std::map<std::string, T>> : Map<std::map<std::string, T>> {};
template <typename T> struct G<std::map<std::string, T, std::greater<std::string>>> : Map<std::map<std::string, T, std::greater<std::string>>> {};
template <typename T> struct G<std::unordered_map<std::string, T>> : Map<std::unordered_map<std::string, T>> {};

// the first alternative that fits
template <typename... Ts>
struct G<std::variant<Ts...>>
{
    using C = std::variant<Ts...>;
    template <size_t I> using A = std::variant_alternative_t<I, C>;
    template <size_t I> static void gen_at(Source& s, size_t n, C& c)
    {
        if (n == I) c.template emplace<I>(G<A<I>>::gen(s));
    }
    template <size_t... I> static C gen(Source& s, std::index_sequence<I...>)
    {
        const size_t n = s.below(sizeof...(Ts));
        C c;
        (gen_at<I>(s, n, c), ...);
        return c;
    }
    using Seq = std::index_sequence_for<Ts...>;
    static C gen(Source& s) { return gen(s, Seq()); }
    template <size_t... I> static bool same(const C& a, const C& b, std::index_sequence<I...>)
    {
        return a.index() == b.index() && ((a.index() != I || G<A<I>>::same(*std::get_if<I>(&a), *std::get_if<I>(&b))) && ...);
    }
    static bool same(const C& a, const C& b) { return same(a, b, Seq()); }
    static V to_v(const C& t)
    {
        return std::visit([](const auto& x) { return G<std::decay_t<decltype(x)>>::to_v(x); }, t);
    }
    static bool matches(const V& v, const C& t)
    {
        return std::visit([&](const auto& x) { return G<std::decay_t<decltype(x)>>::matches(v, x); }, t);
    }
    static bool fits(const V& v) { return (G<Ts>::fits(v) || ...); }
    template <size_t... I> static C from(const V& v, std::index_sequence<I...>)
    {
        C c;
        (void)((G<A<I>>::fits(v) ? (c.template emplace<I>(G<A<I>>::from(v)), true) : false) || ...);
        return c;
    }
    static C from(const V& v) { return from(v, Seq()); }
};

// ---------------------------------------------------------------- JSON near a type
// Small edits of a tree that may or may not take it out of the type.
inline V near(Source& s, V v, size_t edits)
{
    for (; edits > 0; --edits) {
        V* p = &v;
        while ((p->k == model::Arr && !p->a.empty()) || (p->k == model::Obj && !p->o.empty())) {
            if (!s.chance(75)) break;
            if (p->k == model::Arr) p = &p->a[s.below(p->a.size())];
            else p = &std::next(p->o.begin(), static_cast<long>(s.below(p->o.size())))->second;
        }
        switch (s.weighted({ 4, 3, 2, 2, 2, 1 })) {
        case 0: *p = V::num(model::gen_number(s)); break;
        case 1: *p = s.pick({ V::null(), V::boolean(true), V::str(""), V::str("x"), V::arr(), V::obj(), V::num("0"), V::num("1.5"), V::str("1"), V::str("true"), V::str("null") }); break;
        case 2:
            if (p->k == model::Arr) {
                if (s.flip() && !p->a.empty()) p->a.pop_back();
                else p->a.push_back(p->a.empty() ? V::num("1") : p->a[0]);
            }
            else if (p->k == model::Obj) {
                if (s.flip() && !p->o.empty()) p->o.erase(p->o.begin());
                else p->o[model::gen_key(s)] = p->o.empty() ? V::num("1") : p->o.begin()->second;
            }
            else *p = V::arr({ *p });
            break;
        case 3:
            if (p->k == model::Str && !p->s.empty()) { // change of case or of a letter
                char& c = p->s[s.below(p->s.size())];
                if ((c | 32) >= 'a' && (c | 32) <= 'z' && s.chance(70)) c ^= 32;
                else p->s += s.pick({ " ", "x", "\n" });
            }
            else if (p->k == model::Num) p->s += s.pick({ ".0", "0", "e0", "" });
            else *p = V::obj({ { "a", *p } });
            if (p->k == model::Num && !model::parse("[" + p->s + "]", false)) *p = V::num("-0");
            break;
        case 4: *p = model::gen_any(s, 5, 3); break;
        default:
            if (p->k == model::Num) *p = V::str(p->s);
            else if (p->k == model::Str && model::parse("[" + p->s + "]", false) && model::parse("[" + p->s + "]", false)->a.size() == 1) *p = model::parse("[" + p->s + "]", false)->a[0];
            else *p = V::null();
        }
    }
    return v;
}
template <typename T>
inline V gen_near(Source& s)
{
    if (s.chance(10)) return model::gen_any(s, 12, 4);
    return near(s, G<T>::to_v(G<T>::gen(s)), s.weighted({ 4, 4, 2 }));
}
} // namespace typed
