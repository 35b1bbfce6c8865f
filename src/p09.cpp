// Number conversion is exact, or refused.
#define PBT_IMPLEMENT
#include "typed.hpp"

namespace pbt
{
const char* const property_id = "P09";
using model::V;
using namespace typed;

template <typename F>
static bool refused(const std::string& t, const char* how, F&& f)
{
    try {
        f();
    }
    catch (const json::exception&) {
        return true;
    }
    catch (const Failure&) {
        throw;
    }
    catch (const std::exception& e) {
        fail(std::string(how) + " of " + printable(t) + " threw " + describe_current_exception());
    }
    return false;
}

template <typename T>
static std::string text_of(T x)
{
    return G<T>::to_v(x).s;
}

// one number text against one type
template <typename T, typename M>
static void check_type(const json::value& v, const std::string& t, const char* name, M method)
{
    const bool fits = G<T>::fits(V::num(t));
    PBT_CHECK(v.is<T>() == fits, "is<" << name << "> of " << printable(t) << " is " << v.is<T>());
    const T want = fits ? G<T>::from(V::num(t)) : T();
    const auto one = [&](const char* how, auto&& get) {
        T got {};
        const bool r = refused(t, how, [&] { got = get(); });
        PBT_CHECK(r == !fits, how << " to " << name << " of " << printable(t) << (r ? " was refused" : " was not refused"));
        if (fits) PBT_CHECK(G<T>::same(got, want), how << " to " << name << " of " << printable(t) << " gave " << text_of(got) << " not " << text_of(want));
    };
    one("as<>", [&] { return v.as<T>(); });
    one("cast", [&] { return static_cast<T>(v); });
    one("method", [&] { return (v.*method)(); });
    const json::value a = json::array { v };
    const json::value o = json::object { { "n", v } };
    one("element", [&] { return a.as<std::vector<T>>().at(0); });
    one("member", [&] { return o.as<std::map<std::string, T>>().at("n"); });
    PBT_CHECK(a.all<T>() == fits && a.is<std::vector<T>>() == fits && o.all<T>() == fits, "all<" << name << "> of " << printable(t));
    const T def = static_cast<T>(77);
    PBT_CHECK(G<T>::same(a.get(0, def), fits ? want : def), "get(pos, " << name << ") of " << printable(t));
    PBT_CHECK(G<T>::same(o.get("n", def), fits ? want : def), "get(key, " << name << ") of " << printable(t));
    const auto f = a.find<T>(0);
    PBT_CHECK(f.has_value() == fits && (!f || G<T>::same(*f, want)), "find<" << name << "> of " << printable(t));
    PBT_CHECK(!v.is<bool>() && !v.is<std::string>() && !v.is<std::nullptr_t>() && v.is_number(), "kind of " << printable(t));
}

static void check_text(const std::string& t)
{
    const json::value v(json::value::value_type::number, t);
    const auto p = json::parse("[" + t + "]");
    PBT_CHECK(p && p->is_array() && p->as_array().size() == 1, "[" << printable(t) << "] is not parsed");
    for (const json::value* x : { &v, &p->as_array().at(0) }) {
        check_type<int>(*x, t, "int", &json::value::as_integer);
        check_type<unsigned>(*x, t, "unsigned", &json::value::as_unsigned);
        check_type<long>(*x, t, "long", &json::value::as_long);
        check_type<unsigned long>(*x, t, "unsigned long", &json::value::as_unsigned_long);
        check_type<long long>(*x, t, "long long", &json::value::as_long_long);
        check_type<unsigned long long>(*x, t, "unsigned long long", &json::value::as_unsigned_long_long);
        check_type<float>(*x, t, "float", &json::value::as_float);
        check_type<double>(*x, t, "double", &json::value::as_double);
        check_type<long double>(*x, t, "long double", &json::value::as_long_double);
        PBT_CHECK(x->to_string() == t, "the text of " << printable(t) << " is " << printable(x->to_string()));
    }
}

// a number of C++
template <typename T>
static void check_number(T x)
{
    const json::value v(x);
    const std::string t = v.to_string();
    PBT_CHECK(v.is_number(), "not a number");
    if constexpr (std::is_integral_v<T>) {
        PBT_CHECK(t == text_of(x), "value of " << text_of(x) << " is " << printable(t));
    }
    else {
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        const auto w = model::parse("[" + t + "]", false);
        PBT_CHECK(w && w->a.size() == 1 && w->a[0].k == model::Num, "value of " << text_of(x) << " is " << printable(t));
        const auto r = nearest<T>(t);
        PBT_CHECK(r && G<T>::same(*r, x), "value of " << text_of(x) << " is " << printable(t) << ", another number");
#else
        char b[5100];
        snprintf(b, sizeof b, "%.6Lf", static_cast<long double>(x));
        PBT_CHECK(t == b, "value of " << text_of(x) << " is " << printable(t) << " not " << b);
#endif
    }
    json::value w("something");
    w = x;
    json::array a;
    a.emplace_back(x);
    a.push_back(x);
    json::object o { { "n", x } };
    o["m"] = x;
    PBT_CHECK(w == v && a.at(0) == v && a.at(1) == v && o.at("n") == v && o.at("m") == v && json::value(std::vector<T> { x }).as_array().at(0) == v, "ways to build a value of " << text_of(x));
    const json::value pv = json::parse(a.to_string()).value_or(json::value());
    PBT_CHECK(pv == json::value(a), "parse of " << printable(a.to_string()));
    const T back = pv.as_array().at(0).as<T>();
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
    PBT_CHECK(G<T>::same(back, x), text_of(x) << " came back as " << text_of(back));
#else
    PBT_CHECK(G<T>::same(back, G<T>::from(V::num(t))), text_of(x) << " came back as " << text_of(back));
#endif
    nontrivial(hash_bytes(t, sizeof(T) * 2 + std::is_signed_v<T>));
    if (t.size() < 60) sample(t);
}

// exact decimal text of a finite number
static std::string exact(long double x)
{
    // 64 bits of mantissa, exponents down to -16445: enough digits for every binary fraction near a double
    std::vector<char> b(1200);
    snprintf(b.data(), b.size(), "%.1100Le", x);
    std::string s = b.data();
    const size_t e = s.find('e');
    size_t z = e;
    while (z > 1 && s[z - 1] == '0') --z;
    if (s[z - 1] == '.') ++z;
    return s.substr(0, z) + s.substr(e);
}

// texts at and next to the middle between two neighbouring numbers of T
template <typename T>
static std::string gen_hard(Source& s)
{
    using L = std::numeric_limits<T>;
    T a = std::fabs(G<T>::gen(s));
    if (s.chance(10)) a = L::max();
    if (s.chance(10)) a = static_cast<T>(s.below(1000)) * L::denorm_min();
    const T b = std::nextafter(a, L::infinity());
    const long double mid = std::isinf(b) ? static_cast<long double>(a) + std::ldexp(1.0L, L::max_exponent - L::digits - 1) : (static_cast<long double>(a) + static_cast<long double>(b)) / 2;
    std::string t = exact(mid);
    const size_t e = t.find('e');
    switch (s.below(4)) {
    case 0: break;
    case 1: // just above
        t.insert(e, std::string(s.below(30), '0') + "1");
        break;
    case 2: { // just below
        size_t i = e - 1;
        while (i > 0 && (t[i] == '0' || t[i] == '.')) --i;
        --t[i];
        t.insert(e, std::string(1 + s.below(30), '9'));
        break;
    }
    default:
        t.insert(e, std::string(s.below(30), '0'));
    }
    return (s.flip() ? "-" : "") + t;
}

static void valid_text(const std::string& t)
{
    const auto w = model::parse("[" + t + "]", false);
    if (!w || w->a.size() != 1 || w->a[0].k != model::Num || w->a[0].s != t) {
        ++g_stats.discarded;
        return;
    }
    note("number", t);
    check_text(t);
    nontrivial(hash_bytes(t));
    if (t.size() > 3 && t.size() < 60) sample(t);
}

void property(Source& s)
{
    switch (s.weighted({ 5, 3, 4, 4, 4 })) {
    case 0: return valid_text(model::gen_number(s));
    case 1: {
        std::string t = model::gen_number(s);
        for (size_t n = 1 + s.below(2); n > 0; --n) {
            if (s.flip()) t.insert(s.below(t.size() + 1), 1, s.pick({ '0', '1', '9', '.', 'e', 'E', '+', '-' }));
            else if (!t.empty()) t.erase(s.below(t.size()), 1);
        }
        return valid_text(t);
    }
    case 2: return valid_text(s.flip() ? gen_hard<double>(s) : gen_hard<float>(s));
    case 3:
        switch (s.below(6)) {
        case 0: return check_number(G<int>::gen(s));
        case 1: return check_number(G<unsigned>::gen(s));
        case 2: return check_number(G<long>::gen(s));
        case 3: return check_number(G<unsigned long>::gen(s));
        case 4: return check_number(G<long long>::gen(s));
        default: return check_number(G<unsigned long long>::gen(s));
        }
    default:
        switch (s.below(3)) {
        case 0: return check_number(G<float>::gen(s));
        case 1: return check_number(G<double>::gen(s));
        default: return check_number(G<long double>::gen(s));
        }
    }
}

void custom(const std::string& kind, const std::string& p)
{
    if (kind == "text") return valid_text(p);
    if (kind == "float") { // bits of a float
        uint32_t b = static_cast<uint32_t>(std::stoul(p));
        float f;
        memcpy(&f, &b, 4);
        if (std::isfinite(f)) {
            check_number(f);
            check_number(static_cast<double>(f));
        }
        return;
    }
    if (kind == "double") {
        uint64_t b = std::stoull(p);
        double f;
        memcpy(&f, &b, 8);
        if (std::isfinite(f)) check_number(f);
    }
}

void directed()
{
    uint64_t n = 0;
    // around the powers of two and ten, with and without what makes it no integer
    std::vector<__int128> centres { 0 };
    for (int i = 1; i < 90; ++i) centres.push_back(static_cast<__int128>(1) << i);
    for (__int128 i = 10, k = 0; k < 26; i *= 10, ++k) centres.push_back(i);
    for (__int128 c : centres) {
        for (int d = -3; d <= 3; ++d) {
            for (int sign : { 1, -1 }) {
                if (!mine(n++)) continue;
                const std::string t = int128_text(sign * (c + d));
                for (const char* suffix : { "", ".0", "e0", ".5", "E1", "e-1", "0" }) run_custom("text", t + suffix);
            }
        }
    }
    label("integers around powers of 2 and 10", n);
    // every binary exponent with extreme mantissas
    for (uint64_t e = 0; e < 255; ++e) {
        for (uint64_t m : { 0u, 1u, 0x7fffffu, 0x400000u, 0x2aaaaau, 0x555555u, 0x7ffffeu }) {
            for (uint64_t sign : { 0u, 1u }) {
                if (mine(n++)) run_custom("float", std::to_string(sign << 31 | e << 23 | m));
            }
        }
    }
    for (uint64_t e = 0; e < 2047; ++e) {
        for (uint64_t m : { uint64_t(0), uint64_t(1), (uint64_t(1) << 52) - 1, uint64_t(1) << 51, uint64_t(0xaaaaaaaaaaaaa) }) {
            if (mine(n++)) run_custom("double", std::to_string((e & 1) << 63 | e << 52 | m));
        }
    }
    // decimal exponents
    for (int e = -400; e <= 400; ++e) {
        for (const char* m : { "1", "9.9999999999999999999", "4.9", "-1.7976931348623158", "3.4028235677973366" }) {
            if (mine(n++)) run_custom("text", std::string(m) + "e" + std::to_string(e));
        }
    }
    // long integers, long fractions
    for (int len = 1; len < 420; len += len < 45 ? 1 : 25) {
        if (!mine(n++)) continue;
        run_custom("text", std::string(static_cast<size_t>(len), '9'));
        run_custom("text", "0." + std::string(static_cast<size_t>(len), '0') + "1");
        run_custom("text", "1" + std::string(static_cast<size_t>(len), '0') + "e-" + std::to_string(len));
    }
    if (g_tier_thorough) {
        for (uint64_t b = g_worker; b < (1ull << 32); b += 331 * g_workers) run_custom("float", std::to_string(b));
    }
}
} // namespace pbt
