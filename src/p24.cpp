// Time is proportional to the data. The harness and the library are compiled with a callback at
// every edge of the control flow: the edges taken, and the bytes the C library is asked to handle,
// are the work of an operation. They do not depend on the machine or its load.
#define PBT_IMPLEMENT
#include "typed.hpp"

namespace pbt
{
volatile unsigned long long g_work; // the callbacks are added after optimisation
}
#define P24_RAW __attribute__((no_sanitize("coverage"), no_builtin, noinline))
extern "C" {
P24_RAW void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    for (; a < b; ++a) *a = 1;
}
P24_RAW void __sanitizer_cov_trace_pc_guard(uint32_t*) { pbt::g_work = pbt::g_work + 1; }
// what the C library does in one call is as much work as it has bytes to handle, by the cache line
P24_RAW void* memcpy(void* d, const void* s, size_t n)
{
    pbt::g_work = pbt::g_work + n / 16 + 1;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
P24_RAW void* memmove(void* d, const void* s, size_t n)
{
    pbt::g_work = pbt::g_work + n / 16 + 1;
    void* r = d;
    if (reinterpret_cast<uintptr_t>(d) - reinterpret_cast<uintptr_t>(s) >= n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    else {
        d = static_cast<char*>(d) + n - 1;
        s = static_cast<const char*>(s) + n - 1;
        asm volatile("std\n\trep movsb\n\tcld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
P24_RAW void* memset(void* d, int c, size_t n)
{
    pbt::g_work = pbt::g_work + n / 16 + 1;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
P24_RAW int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = static_cast<const unsigned char*>(a), *y = static_cast<const unsigned char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) ++i;
    pbt::g_work = pbt::g_work + i / 16 + 1;
    return i < n ? x[i] - y[i] : 0;
}
void* p24_memchr(const void* a, int c, size_t n) asm("memchr");
P24_RAW void* p24_memchr(const void* a, int c, size_t n)
{
    const unsigned char* x = static_cast<const unsigned char*>(a);
    size_t i = 0;
    while (i < n && x[i] != static_cast<unsigned char>(c)) ++i;
    pbt::g_work = pbt::g_work + i / 16 + 1;
    return i < n ? const_cast<unsigned char*>(x + i) : nullptr;
}
P24_RAW size_t strlen(const char* s)
{
    size_t i = 0;
    while (s[i]) ++i;
    pbt::g_work = pbt::g_work + i / 16 + 1;
    return i;
}
}

namespace pbt
{
const char* const property_id = "P24";

using Cost = double;
template <typename F>
static Cost cost_of(F&& f)
{
    asm volatile("" ::: "memory");
    const unsigned long long before = g_work;
    f();
    asm volatile("" ::: "memory");
    return static_cast<double>(g_work - before);
}
}
#include "plan.hpp"

namespace pbt
{
// keeps what computes x
static void sink(size_t x)
{
    static volatile size_t v;
    v = x;
}
static bool showing()
{
    static const bool s = getenv("P24_SHOW");
    return s;
}
// The work per unit of size does not grow when the size does
static void proportional(const std::string& what, const std::vector<Measured>& small, const std::vector<Measured>& large, double factor = 2)
{
    PBT_CHECK(small.size() == large.size(), what << ": what applies differs between the sizes");
    for (size_t i = 0; i < small.size(); ++i) {
        const Measured &a = small[i], &b = large[i];
        const double growth = (b.size * b.levels + 1) / (a.size * a.levels + 1);
        // what happens once, and does not repeat with the size, is worth `once` steps
        const double once = 80, most = factor * growth * (a.cost + once);
        if (showing()) fprintf(stderr, "%-28s %-34s size %8.0f -> %8.0f work %9.0f -> %10.0f growth %.2f of %.2f share %.3f\n", what.substr(0, 28).c_str(), a.name.c_str(), a.size, b.size, a.cost, b.cost, b.cost / (a.cost + once), growth, b.cost / most);
        PBT_CHECK(b.cost <= most, a.name << " (" << what << ") takes " << a.cost << " steps for size " << a.size << ", but " << b.cost << " for size " << b.size);
    }
}

// ------------------------------------------------------------------ texts that repeat a piece
static const char* const pieces[] = { "[", "]", "{", "}", ",", ":", "\"", "\\", "/", "*", "//", "/*", "*/", " ", "\n", "\t", "\r", "a", "1", "0", "-", ".", "e", "E", "+", "true", "null", "tru", "\"a\"", "\"a\":", "[]", "{}", "\\u", "\\u0041", "\\ud83d\\ude00", "\\n", "\xc3\xa9", "\xef\xbb\xbf", "'", "/**/", "//x\n", "1,", "\"\",", "\"k\":1,", "\\\"" };
static std::string gen_piece(Source& s, size_t most)
{
    std::string t;
    for (size_t i = 0, n = 1 + s.below(most); i < n; ++i) {
        if (s.below(12) == 0) t += static_cast<char>(s.below(256));
        else t += pieces[s.below(sizeof pieces / sizeof *pieces)];
    }
    return t;
}
static std::string gen_maybe(Source& s, size_t most) { return s.below(3) ? gen_piece(s, most) : std::string(); }

static std::vector<Measured> parse_all(const std::string& t)
{
    std::vector<Measured> r;
    const double len = static_cast<double>(t.size());
    const auto run = [&](const char* name, auto&& f) { r.push_back({ name, cost_of(f), len }); };
    run("parse", [&] { (void)json::parse(t); });
    run("parsec", [&] { (void)json::parsec(t); });
    run("parse a view", [&] { (void)json::parse(std::string_view(t)); });
    run("parse a vector", [&] { (void)json::parse(std::vector<char>(t.begin(), t.end())); });
    std::istringstream in(t);
    run("parse a stream", [&] { (void)json::parse(in); });
    return r;
}

static void pumped(Source& s)
{
    std::string open, close;
    const size_t around = s.below(4);
    const std::string pre = around == 0 ? "" : (around == 1 ? "[" : around == 2 ? "{\"k\":" : "[\"") + gen_maybe(s, 3);
    const std::string body = gen_piece(s, 5);
    const std::string back = s.below(3) == 0 ? gen_piece(s, 3) : std::string(); // closes what the body opens, as often
    const std::string post = gen_maybe(s, 3) + (s.flip() ? "" : around == 1 ? "]" : around == 2 ? "}" : around == 3 ? "\"]" : "");
    const size_t unit = body.size() + back.size();
    const size_t n = 20 + 300 / unit + s.below(60);
    const auto text = [&](size_t k) {
        std::string t = pre;
        for (size_t i = 0; i < k; ++i) t += body;
        for (size_t i = 0; i < k; ++i) t += back;
        return t + post;
    };
    const std::string a = text(n), b = text(n * 8);
    const bool ok = json::parsec(a).has_value();
    // the larger text may be decided otherwise only by being cut off: its prefix is the same, so
    // work can only stop early
    proportional("text repeating " + printable(body), parse_all(a), parse_all(b));
    label(ok ? "repeating texts: well-formed" : "repeating texts: refused");
    if (ok || cost_of([&] { (void)json::parsec(b); }) > static_cast<double>(b.size()) / 4) nontrivial(hash_bytes(pre + "|" + body + "|" + back + "|" + post, n));
    sample("repeating " + std::to_string(n) + " times: " + printable(pre) + " (" + printable(body) + ") (" + printable(back) + ") " + printable(post));
}

// ------------------------------------------------------------------ growing step by step
struct Steps
{
    std::vector<json::value> items; // of bounded size
    std::vector<std::string> keys;
    json::value item(size_t i) const { return items[i % items.size()]; }
    std::string key(size_t i) const { return keys[i % keys.size()] + std::to_string(i * 7919 % 10007); }
};

static std::vector<Measured> grow(const Steps& p, size_t n)
{
    std::vector<Measured> r;
    const double dn = static_cast<double>(n) * 100;
    const double dm = dn * std::log2(static_cast<double>(n) + 2); // with keys to find
    const auto run = [&](const char* name, double size, auto&& f) { r.push_back({ name, cost_of(f), size }); };
    json::array arr;
    run("push_back", dn, [&] { for (size_t i = 0; i < n; ++i) arr.push_back(p.item(i)); });
    run("array emplace_back", dn, [&] {
        json::array a;
        for (size_t i = 0; i < n; ++i) a.emplace_back(p.item(i));
    });
    run("+= one element", dn, [&] {
        json::array a;
        for (size_t i = 0; i < n; ++i) a += json::array { p.item(i) };
    });
    run("+= one element, lvalue", dn, [&] {
        json::array a;
        for (size_t i = 0; i < n; ++i) {
            const json::array one { p.item(i) };
            a += one;
        }
    });
    run("a + one element, moved", dn, [&] {
        json::array a;
        for (size_t i = 0; i < n; ++i) a = std::move(a) + json::array { p.item(i) };
    });
    run("a + one lvalue, moved", dn, [&] {
        json::array a;
        for (size_t i = 0; i < n; ++i) {
            const json::array one { p.item(i) };
            a = std::move(a) + one;
        }
    });
    run("value += one element", dn, [&] {
        json::value a { json::array() };
        for (size_t i = 0; i < n; ++i) a += json::array { p.item(i) };
    });
    run("value + one element, moved", dn, [&] {
        json::value a { json::array() };
        for (size_t i = 0; i < n; ++i) a = std::move(a) + json::array { p.item(i) };
    });
    run("elements by index", dn, [&] {
        size_t k = 0;
        for (size_t i = 0; i < n; ++i) k += arr[i].is_null() + std::as_const(arr)[i].is_null() + arr.at(i).is_null() + arr.contains(i) + arr.exists(i) + arr.find_value(i)->is_null();
        sink(k);
    });
    run("elements got and found", dn, [&] {
        for (size_t i = 0; i < n; ++i) {
            (void)arr.get(i, 5);
            (void)arr.find<json::value>(i);
            (void)arr.find<std::string>(i);
            (void)arr.get(i + n, "none");
        }
    });
    {
        const json::value v { arr };
        run("elements of a value by index", dn, [&] {
            for (size_t i = 0; i < n; ++i) {
                (void)v[i].empty();
                (void)v.at(i).empty();
                (void)v.contains(i);
                (void)v.exists(i);
                (void)v.get(i, 5);
                (void)v.find<json::value>(i);
            }
        });
        run("elements of a member by path", dn, [&] {
            json::value o;
            o["a"]["b"] = v;
            for (size_t i = 0; i < n; ++i) (void)o.get("a", "b", i, 5);
        });
    }
    run("iterating", dn, [&] {
        size_t k = 0;
        for (json::value& x : arr) k += x.is_null();
        for (const json::value& x : std::as_const(arr)) k += x.is_null();
        for (auto it = arr.rbegin(); it != arr.rend(); ++it) k += it->is_null();
        sink(k);
    });
    run("erasing at the end", dn, [&] {
        json::array a = arr;
        for (size_t i = n; i-- > 0;) PBT_CHECK(i % 2 ? a.erase(i) : a.erase(a.end() - 1));
    });
    run("replacing elements", dn, [&] {
        json::array a = arr;
        for (size_t i = 0; i < n; ++i) a[i] = p.item(i + 1);
    });
    run("swapping neighbours", dn, [&] {
        json::array a = arr;
        for (size_t i = 1; i < n; ++i) std::swap(a[i - 1], a[i]);
    });
    // objects
    json::object obj;
    run("members by []", dm, [&] { for (size_t i = 0; i < n; ++i) obj[p.key(i)] = p.item(i); });
    run("emplace", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) o.emplace(p.key(i), p.item(i));
    });
    run("insert", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) o.insert(p.key(i), p.item(i));
    });
    run("members of a value by []", dm, [&] {
        json::value o;
        for (size_t i = 0; i < n; ++i) o[p.key(i)] = p.item(i);
    });
    run("value::emplace", dm, [&] {
        json::value o;
        for (size_t i = 0; i < n; ++i) o.emplace(p.key(i), p.item(i));
    });
    run("|= one member", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) o |= json::object { { p.key(i), p.item(i) } };
    });
    run("|= one member, lvalue", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) {
            const json::object one { { p.key(i), p.item(i) } };
            o |= one;
        }
    });
    run("o | one member, moved", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) o = std::move(o) | json::object { { p.key(i), p.item(i) } };
    });
    run("o | one lvalue, moved", dm, [&] {
        json::object o;
        for (size_t i = 0; i < n; ++i) {
            const json::object one { { p.key(i), p.item(i) } };
            o = std::move(o) | one;
        }
    });
    run("value |= one member", dm, [&] {
        json::value o { json::object() };
        for (size_t i = 0; i < n; ++i) o |= json::object { { p.key(i), p.item(i) } };
    });
    run("value | one member, moved", dm, [&] {
        json::value o { json::object() };
        for (size_t i = 0; i < n; ++i) o = std::move(o) | json::object { { p.key(i), p.item(i) } };
    });
    run("members looked up", dm, [&] {
        const json::object& c = obj;
        size_t k = 0;
        for (size_t i = 0; i < n; ++i) {
            const std::string key = p.key(i);
            k += obj[key].is_null() + c.at(key).is_null() + c.contains(key) + c.exists(key) + (c.find_value(key) ? 1 : 0);
            k += c.contains(key + "?") + (c.find_value("?" + key) ? 1 : 0);
        }
        sink(k);
    });
    run("members got and found", dm, [&] {
        for (size_t i = 0; i < n; ++i) {
            const std::string key = p.key(i);
            (void)obj.get(key, 5);
            (void)obj.find<json::value>(key);
            (void)obj.find<int>(key);
            (void)obj.get(key + "?", "none");
        }
    });
    {
        const json::value v { obj };
        run("members of a value looked up", dm, [&] {
            for (size_t i = 0; i < n; ++i) {
                const std::string key = p.key(i);
                (void)v.at(key).empty();
                (void)v.contains(key);
                (void)v.exists(key);
                (void)v.get(key, 5);
                (void)v.find<json::value>(key);
                (void)v.find_value(key);
            }
        });
    }
    run("iterating members", dm, [&] {
        size_t k = 0;
        for (auto& [key, x] : obj) k += x.is_null() + key.size();
        for (const auto& [key, x] : std::as_const(obj)) k += x.is_null() + key.size();
        sink(k);
    });
    run("erasing members", dm, [&] {
        json::object o = obj;
        for (size_t i = 0; i < n; ++i) {
            if (i % 2) o.erase(p.key(i));
            else if (!o.empty()) o.erase(o.begin());
        }
    });
    return r;
}

// ------------------------------------------------------------------ what takes the same at any size
static std::vector<Measured> instant(const Steps& p, size_t n)
{
    std::vector<Measured> r;
    json::array arr;
    json::object obj;
    std::string text;
    for (size_t i = 0; i < n; ++i) {
        arr.push_back(p.item(i));
        obj[p.key(i)] = p.item(i);
        text += p.key(i);
    }
    json::value va { arr }, vo { obj }, vs { text };
    const double lg = 100 * std::log2(static_cast<double>(n) + 2);
    const auto run = [&](const char* name, auto&& f) { r.push_back({ name, cost_of(f), lg }); };
    for (json::value* v : { &va, &vo, &vs }) {
        run("asking a value", [&] { (void)(v->is_null() + v->is_array() + v->is_object() + v->is_string() + v->is_number() + v->is_boolean() + v->valid() + v->empty() + static_cast<int>(v->type())); });
        run("moving a value", [&] {
            json::value a = std::move(*v);
            json::value b { "something" };
            b = std::move(a);
            std::swap(*v, b);
        });
        run("moving a value into a list", [&] {
            json::array a;
            a.push_back(std::move(*v));
            a.emplace_back(1);
            *v = std::move(a[0]);
        });
        run("moving a value into an object", [&] {
            json::object a;
            a["k"] = std::move(*v);
            *v = std::move(a["k"]);
        });
        run("a value is not", [&] { (void)(v->is<bool>() + v->is<int>() + v->is<std::optional<int>>() + (*v == json::value(1))); });
        run("a value compared with another kind", [&] { (void)(*v == json::value() || *v == json::value(1) || json::value("x") == *v); });
        run("lookups that fail", [&] { (void)(v->contains("no such key") + v->contains(n * 2) + v->find<int>("no such key").has_value() + v->get("none", "at", "all", 5) + v->get(n * 2, 5)); });
    }
    run("references", [&] { (void)(va.as_array().size() + vo.as_object().size() + vs.as_string_view().size() + va.as_array().empty() + vo.as_object().empty()); });
    run("the ends of a list", [&] { (void)(va.as_array().begin()->is_null() + va.as_array().rbegin()->is_null() + va.as_array()[n - 1].is_null()); });
    run("the first of the members", [&] { (void)(vo.as_object().begin()->second.is_null()); });
    run("moving a list and an object", [&] {
        json::array a = std::move(arr), b;
        b = std::move(a);
        arr = std::move(b);
        json::object c = std::move(obj), d;
        d = std::move(c);
        obj = std::move(d);
    });
    run("taking a list out", [&] {
        json::array a = std::move(va.as_array());
        va = std::move(a);
    });
    run("taking an object out", [&] {
        json::object a = std::move(vo.as_object());
        vo = std::move(a);
    });
    run("a reference to a long text", [&] { (void)vs.as_string_view().size(); });
    run("one member", [&] {
        const std::string k = p.key(n / 2);
        vo[k] = 1;
        (void)(vo.contains(k) + vo.at(k).is_null() + vo.find<int>(k).has_value() + vo.get(k, 3) + vo.get(k, "below", 3));
    });
    run("one element", [&] { (void)(va[n / 2].is_null() + va.at(n - 1).is_null() + va.contains(n / 3)); });
    return r;
}

// ------------------------------------------------------------------ nested types
template <size_t k, typename L>
struct Nest_
{
    using type = std::vector<typename Nest_<k - 1, L>::type>;
    using map = std::map<std::string, typename Nest_<k - 1, L>::map>;
    using opt = std::optional<std::vector<typename Nest_<k - 1, L>::opt>>;
    using var = std::variant<std::string, std::vector<typename Nest_<k - 1, L>::var>>;
    using tup = std::tuple<typename Nest_<k - 1, L>::tup, int>;
    using par = std::pair<int, typename Nest_<k - 1, L>::par>;
    using arr = std::array<typename Nest_<k - 1, L>::arr, 1>;
    using ptr = std::vector<std::shared_ptr<typename Nest_<k - 1, L>::ptr>>;
};
template <typename L>
struct Nest_<0, L>
{
    using type = L;
    using map = L;
    using opt = L;
    using var = L;
    using tup = L;
    using par = L;
    using arr = L;
    using ptr = L;
};
template <template <size_t> typename N, size_t k>
static void nested_one(const char* name, const json::value& v, size_t levels, std::vector<Measured>& r)
{
    using T = typename N<k>::type;
    const double size = static_cast<double>(weight(v)) * static_cast<double>(levels);
    const auto run = [&](const std::string& what, auto&& f) { r.push_back({ std::string(name) + ": " + what, cost_of(f), size }); };
    bool is = false;
    run("is", [&] { is = v.is<T>(); });
    if (!is) return;
    std::optional<T> t;
    run("as", [&] { t.emplace(v.as<T>()); });
    json::value back;
    run("value of", [&] { back = json::value(*t); });
    PBT_CHECK(back == v, name << " of " << printable(v.to_string()) << " gives " << printable(back.to_string()));
    run("value of the rvalue", [&] { back = json::value(std::move(*t)); });
    run("as of an rvalue", [&] { (void)std::move(back).as<T>(); });
    json::value o { json::object { { "k", v } } };
    run("find", [&] { (void)o.find<T>("k"); });
}
#define P24_NEST(N, M)                         \
    template <size_t k>                        \
    struct N                                   \
    {                                          \
        using type = typename Nest_<k, int>::M; \
    };
P24_NEST(NVec, type)
P24_NEST(NMap, map)
P24_NEST(NOpt, opt)
P24_NEST(NVar, var)
P24_NEST(NTup, tup)
P24_NEST(NPar, par)
P24_NEST(NArr, arr)
P24_NEST(NPtr, ptr)

static json::value nest(int what, size_t levels, const std::vector<size_t>& widths)
{
    json::value v = 7;
    for (size_t i = 0; i < levels; ++i) {
        switch (what) {
        case 0: {
            // one heavy element per level
            json::array a;
            a.push_back(std::move(v));
            if (i) {
                for (size_t k = widths[i % widths.size()]; k-- > 0;) a.push_back(json::array());
            }
            else a.push_back(3);
            v = std::move(a);
            break;
        }
        case 1: {
            json::object o;
            o["m"] = std::move(v);
            if (i) {
                for (size_t k = widths[i % widths.size()]; k-- > 0;) o["e" + std::to_string(k)] = json::object();
            }
            v = std::move(o);
            break;
        }
        case 2: v = json::array { std::move(v), static_cast<int>(i) }; break;
        case 3: v = json::array { static_cast<int>(i), std::move(v) }; break;
        default: v = json::array { std::move(v) }; break;
        }
    }
    return v;
}
template <template <size_t> typename N>
static void nested(const char* name, int what, const std::vector<size_t>& w)
{
    std::vector<Measured> a, b;
    nested_one<N, 4>(name, nest(what, 4, w), 4, a);
    nested_one<N, 10>(name, nest(what, 10, w), 10, b);
    proportional("types nested 4 and 10 deep", a, b);
}

void property(Source& s)
{
    const size_t what = s.weighted({ 3, 4, 2, 1, 1 });
    switch (what) {
    case 0: {
        const Plan p = gen_plan(s);
        const size_t n = 100 + s.below(200);
        proportional(shapes[p.shape], measure(p, n), measure(p, n * 8));
        label(std::string("documents: ") + shapes[p.shape]);
        const std::string text = make(p, 4);
        nontrivial(hash_bytes(text, n));
        if (text.size() < 200) sample(std::string(shapes[p.shape]) + " of " + std::to_string(n) + " units: " + printable(text));
        return;
    }
    case 1:
        for (size_t i = 0; i < 4; ++i) pumped(s);
        return;
    case 2:
    case 3: {
        Steps p;
        do {
            p.items.push_back(mj::build(model::gen_any(s, 6, 2)));
        } while (s.more(3) && p.items.size() < 5);
        do {
            p.keys.push_back(model::gen_string(s, 3).substr(0, 24));
        } while (s.more(3) && p.keys.size() < 5);
        const size_t n = 60 + s.below(100);
        if (what == 2) proportional("one at a time", grow(p, n), grow(p, n * 8));
        else proportional("at any size", instant(p, n), instant(p, n * 8), 2);
        label(what == 2 ? "step by step" : "at any size");
        nontrivial(hash_bytes(json::value(json::array(p.items)).to_string(), n));
        return;
    }
    default: {
        std::vector<size_t> w;
        do {
            w.push_back(s.below(6));
        } while (s.more(3) && w.size() < 6);
        nested<NVec>("vectors", 0, w);
        nested<NMap>("maps", 1, w);
        nested<NOpt>("optional vectors", 0, w);
        nested<NVar>("variants", 0, w);
        nested<NTup>("tuples", 2, w);
        nested<NPar>("pairs", 3, w);
        nested<NArr>("arrays", 4, w);
        nested<NPtr>("pointers", 0, w);
        label("nested types");
        uint64_t h = 0;
        for (size_t x : w) h = h * 7 + x + 1;
        nontrivial(hash_bytes("nest", h));
    }
    }
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
