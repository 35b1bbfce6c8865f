// A fixed battery of operations on one input (a text and a number). What it did is written down in a
// transcript, so that runs in threads, in build configurations and in locales can be compared.
// No random source here, and no two draws in one expression: every compiler does the same.
#pragma once

#include "json.hpp"

#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>

namespace battery
{
enum class Hue { Red, Green = 5, Blue, Dark_Red = -9, IIII = 40 };
enum class Tiny : unsigned char { none = 0, I = 3, i = 4, Top = 100 };
enum Loose : short { loose_a = -2, loose_b = 1 };
class Holder
{
public:
    enum class Inner : long long { First = 1, second = 2 };
};

struct Spot
{
    int x = 0;
    double y = 0;
    std::string title;
    MEO_JSONIZATION(x, MEO_OPT y, MEO_KEY("The Title") title);
};
struct Sheet
{
    std::vector<Spot> spots;
    std::map<std::string, std::optional<bool>> flags;
    Hue hue = Hue::Red;
    std::variant<int, std::string, std::vector<unsigned>> any;
    std::tuple<int, std::string, Tiny> tup;
    MEO_JSONIZATION(spots, flags, MEO_OPT hue, any, MEO_OPT tup);
};

struct Dice
{
    uint64_t s;
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    size_t below(size_t n) { return n ? static_cast<size_t>(next() % n) : 0; }
};

struct Out
{
    std::string t;
    void line(const char* name, std::string_view what)
    {
        t += name;
        t += ": ";
        t += what;
        t += '\n';
    }
    void flag(const char* name, bool b) { line(name, b ? "yes" : "no"); }
};

template <typename T>
std::string bytes_of(const T& x, size_t n = sizeof(T))
{
    unsigned char b[sizeof(T)];
    memcpy(b, &x, sizeof(T));
    std::string r;
    for (size_t i = 0; i < n; ++i) {
        r += "0123456789abcdef"[b[i] >> 4];
        r += "0123456789abcdef"[b[i] & 15];
    }
    return r;
}
inline std::string show(long double x) { return bytes_of(x, 10); }
inline std::string show(double x) { return bytes_of(x); }
inline std::string show(float x) { return bytes_of(x); }
inline std::string show(bool x) { return x ? "true" : "false"; }
inline std::string show(const std::string& x) { return x; }
inline std::string show(std::string_view x) { return std::string(x); }
inline std::string show(std::nullptr_t) { return "nullptr"; }
inline std::string show(std::monostate) { return "monostate"; }
template <typename T>
std::enable_if_t<std::is_integral_v<T>, std::string> show(T x)
{
    return std::to_string(x);
}
template <typename T>
std::enable_if_t<std::is_enum_v<T>, std::string> show(T x)
{
    return "enum " + std::to_string(static_cast<long long>(x));
}
template <typename T>
std::string show(const std::optional<T>& x);
template <typename T>
std::string show(const std::unique_ptr<T>& x);
template <typename T, typename = decltype(std::declval<const T&>().begin()), typename = std::enable_if_t<!std::is_constructible_v<std::string_view, T>>>
std::string show(const T& c);
template <typename... Ts>
std::string show(const std::tuple<Ts...>& x);
template <typename... Ts>
std::string show(const std::variant<Ts...>& x);
template <typename A, typename B>
std::string show(const std::pair<A, B>& x)
{
    std::string r = "(" + show(x.first);
    r += "," + show(x.second);
    return r + ")";
}
template <typename T>
std::string show(const std::optional<T>& x)
{
    return x ? "some " + show(*x) : "none";
}
template <typename T>
std::string show(const std::unique_ptr<T>& x)
{
    return x ? "ptr " + show(*x) : "null";
}
template <typename T, typename, typename>
std::string show(const T& c)
{
    std::string r = "[";
    for (const auto& x : c) {
        r += show(x);
        r += ",";
    }
    return r + "]";
}
template <typename... Ts>
std::string show(const std::tuple<Ts...>& x)
{
    std::string r = "<";
    std::apply([&](const auto&... e) { ((r += show(e), r += ","), ...); }, x);
    return r + ">";
}
template <typename... Ts>
std::string show(const std::variant<Ts...>& x)
{
    std::string r = "alt" + std::to_string(x.index()) + " ";
    std::visit([&](const auto& e) { r += show(e); }, x);
    return r;
}
inline std::string show(const Spot& s)
{
    std::string r = show(s.x);
    r += "/" + show(s.y);
    r += "/" + s.title;
    return r;
}
inline std::string show(const Sheet& s)
{
    std::string r = show(s.spots);
    r += show(s.flags);
    r += show(s.hue);
    r += show(s.any);
    r += show(s.tup);
    return r;
}
inline std::string show(const json::value& v) { return v.to_string(); }

// The kind of an exception is what programs see; its words are not compared.
template <typename F>
std::string attempt(F&& f)
{
    try {
        return f();
    }
    catch (const json::exception&) {
        return "!json::exception";
    }
    catch (const std::out_of_range&) {
        return "!out_of_range";
    }
    catch (const std::exception&) {
        return "!exception";
    }
}

template <typename T>
void convert(Out& o, const char* name, const json::value& v)
{
    o.flag(name, v.is<T>());
    o.line(name, attempt([&] { return show(v.as<T>()); }));
    o.line(name, attempt([&] { return show(static_cast<T>(v)); }));
}
template <typename T>
void convert_as(Out& o, const char* name, const json::value& v)
{
    o.flag(name, v.is<T>());
    o.line(name, attempt([&] { return show(v.as<T>()); }));
}

// ------------------------------------------------------------------ the parts
// Every node of a value, breadth first, up to a number
inline std::vector<const json::value*> nodes(const json::value& v, size_t max)
{
    std::vector<const json::value*> r { &v };
    for (size_t i = 0; i < r.size() && r.size() < max; ++i) {
        if (r[i]->is_array()) {
            for (const json::value& x : r[i]->as_array()) r.push_back(&x);
        }
        else if (r[i]->is_object()) {
            for (const auto& [k, x] : r[i]->as_object()) r.push_back(&x);
        }
    }
    if (r.size() > max) r.resize(max);
    return r;
}

inline void parsing(Out& o, const std::string& text)
{
    const auto put = [&](const char* how, const std::optional<json::value>& r) {
        o.line(how, r ? r->to_string() : std::string("rejected"));
        if (r) o.line(how, r->format(3));
    };
    put("parse", json::parse(text));
    put("parsec", json::parsec(text));
    put("view", json::parse(std::string_view(text)));
    put("vector", json::parse(std::vector<char>(text.begin(), text.end())));
    put("deque", json::parsec(std::deque<char>(text.begin(), text.end())));
    put("bytes", json::parse(std::vector<unsigned char>(text.begin(), text.end())));
    {
        std::istringstream in(text);
        put("stream", json::parse(in, true, false));
    }
    {
        std::istringstream in(text);
        put("streamc", json::parse(in, false, true));
    }
}

// Const operations only
inline void reading(Out& o, const json::value& v, uint64_t param)
{
    Dice d { param };
    o.line("text", v.to_string());
    o.line("dumps", v.dumps(d.below(6)));
    o.line("format", v.format(d.below(9)));
    {
        std::ostringstream s;
        s << v;
        o.line("stream", s.str());
    }
    const std::vector<const json::value*> all = nodes(v, 24);
    for (size_t i = 0; i < all.size(); ++i) {
        const json::value& n = *all[i];
        std::string r = n.type_name();
        r += n.empty() ? " empty" : " full";
        r += n.valid() ? " valid" : " invalid";
        r += n.is_null() ? " null" : "";
        r += n.is_number() ? " number" : "";
        r += n.is_string() ? " string" : "";
        r += n.contains(i % 3) ? " has-pos" : "";
        r += n.contains("a") ? " has-a" : "";
        r += n.exists("key") ? " has-key" : "";
        o.line("node", r);
        const json::value& m = *all[d.below(all.size())];
        o.flag("equal", n == m);
        o.flag("unequal", n != m);
        if (n.is_array()) {
            const json::array& a = n.as_array();
            o.line("size", std::to_string(a.size()));
            for (size_t p = 0; p < 3; ++p) {
                o.line("at", attempt([&] { return a.at(p).to_string(); }));
                o.line("vat", attempt([&] { return n.at(p).to_string(); }));
                o.line("find", attempt([&] { return show(a.find<int>(p)); }));
                o.line("vfind", attempt([&] { return show(n.find<std::string>(p)); }));
                o.line("get", attempt([&] { return a.get(p, "dflt"); }));
                o.line("get2", attempt([&] { return show(n.get(p, "a", 1.5)); }));
            }
            std::string rev;
            for (auto it = a.rbegin(); it != a.rend(); ++it) rev += it->to_string();
            o.line("reverse", rev);
            o.flag("all", n.all<int>());
            o.flag("all", n.all<std::string>());
        }
        if (n.is_object()) {
            const json::object& b = n.as_object();
            o.line("size", std::to_string(b.size()));
            std::string keys;
            for (const auto& [k, x] : b) keys += k + "=" + x.type_name() + ";";
            o.line("keys", keys);
            const std::string k = b.empty() ? "" : std::next(b.begin(), static_cast<long>(d.below(b.size())))->first;
            for (const std::string& key : { k, std::string("a"), std::string("none") }) {
                o.line("at", attempt([&] { return b.at(key).to_string(); }));
                o.line("vat", attempt([&] { return n.at(key).to_string(); }));
                o.line("find", attempt([&] { return show(b.find<double>(key)); }));
                o.line("vfind", attempt([&] { return show(n.find<std::string>(key)); }));
                o.line("get", attempt([&] { return b.get(key, "dflt"); }));
                o.line("get2", attempt([&] { return show(n.get(key, size_t(0), 7)); }));
                const json::value* p = n.find_value(key);
                o.line("find_value", p ? p->to_string() : "none");
            }
        }
    }
    const json::value copy = v;
    o.flag("copy", copy == v);
}

inline void converting(Out& o, const json::value& v)
{
    const std::vector<const json::value*> all = nodes(v, 16);
    for (const json::value* p : all) {
        const json::value& n = *p;
        convert<bool>(o, "bool", n);
        convert<int>(o, "int", n);
        convert<unsigned>(o, "unsigned", n);
        convert<long>(o, "long", n);
        convert<unsigned long long>(o, "ull", n);
        convert<float>(o, "float", n);
        convert<double>(o, "double", n);
        convert<long double>(o, "ldouble", n);
        convert<std::string>(o, "string", n);
        convert_as<std::nullptr_t>(o, "null", n);
        convert_as<Hue>(o, "hue", n);
        convert_as<Tiny>(o, "tiny", n);
        convert_as<Loose>(o, "loose", n);
        convert_as<Holder::Inner>(o, "inner", n);
        convert_as<std::optional<int>>(o, "optint", n);
        convert_as<std::vector<double>>(o, "vdouble", n);
        convert_as<std::list<std::string>>(o, "lstring", n);
        convert_as<std::set<long long>>(o, "sll", n);
        convert_as<std::array<int, 2>>(o, "aint2", n);
        convert_as<std::map<std::string, unsigned>>(o, "munsigned", n);
        convert_as<std::pair<int, std::string>>(o, "pair", n);
        convert_as<std::tuple<double, bool, std::vector<int>>>(o, "tuple", n);
        convert_as<std::variant<bool, unsigned, double, std::string>>(o, "variant", n);
        convert_as<Spot>(o, "spot", n);
        convert_as<Sheet>(o, "sheet", n);
    }
}

inline std::string word(Dice& d, const std::string& text)
{
    std::string r;
    const size_t n = d.below(40);
    const size_t at = d.below(text.size() + 1);
    const size_t kind = d.below(3);
    for (size_t i = 0; i < n; ++i) {
        const char c = static_cast<char>(d.below(256));
        if (kind == 0) r += static_cast<char>('a' + d.below(26));
        else if (kind == 1) r += c;
        else if (at + i < text.size()) r += text[at + i];
    }
    return r;
}

// integers, strings, containers to JSON
inline void building(Out& o, const std::string& text, uint64_t param)
{
    Dice d { param };
    for (int i = 0; i < 6; ++i) {
        const uint64_t x = d.next() >> d.below(64);
        o.line("ull", json::value(static_cast<unsigned long long>(x)).to_string());
        o.line("ll", json::value(-static_cast<long long>(x >> 1)).to_string());
        o.line("int", json::value(static_cast<int>(x)).to_string());
        o.line("unsigned", json::value(static_cast<unsigned>(x)).to_string());
        const json::value back(static_cast<unsigned long long>(x));
        o.flag("back", back.as<unsigned long long>() == x);
    }
    const std::string w = word(d, text);
    o.line("string", json::value(w).to_string());
    o.line("string", json::value(w.c_str()).to_string());
    o.line("string", json::value(std::string_view(w).substr(w.size() / 2)).to_string());
    std::vector<std::vector<std::string>> vv;
    std::map<std::string, std::vector<long>> m;
    std::list<std::optional<bool>> lo;
    std::unordered_map<std::string, int> one;
    std::deque<std::tuple<int, std::string, std::nullptr_t>> dt;
    std::variant<int, std::string, std::vector<int>> var;
    const size_t n = d.below(5);
    for (size_t i = 0; i < n; ++i) {
        const std::string a = word(d, text);
        const std::string b = word(d, text);
        const long x = static_cast<long>(d.next());
        vv.push_back({ a, b });
        m[a].push_back(x);
        lo.push_back(i % 2 ? std::optional<bool>(x > 0) : std::nullopt);
        dt.emplace_back(static_cast<int>(x), b, nullptr);
        one[a] = 1;
        if (i == 1) var = a;
        if (i == 2) var = std::vector<int> { 1, static_cast<int>(x) };
    }
    o.line("vv", json::value(vv).to_string());
    o.line("m", json::value(m).to_string());
    o.line("m", json::object(m).format(2));
    o.line("lo", json::array(lo).to_string());
    o.line("one", json::object(one).to_string());
    o.line("dt", json::value(dt).to_string());
    o.line("var", json::value(var).to_string());
    o.line("fl", json::array(std::forward_list<int>(n, 3)).to_string());
    Spot sp;
    sp.x = static_cast<int>(d.next());
    sp.y = static_cast<double>(static_cast<int>(d.next() >> 40)) / 4;
    sp.title = word(d, text);
    Sheet sh;
    sh.spots.push_back(sp);
    sh.flags["f"] = true;
    sh.flags[sp.title] = std::nullopt;
    sh.any = sp.title;
    json::value j = sh;
    j["spots"][0].as_object().erase("y");
    j.as_object().erase("hue");
    j.as_object().erase("tup");
    o.line("sheet", j.to_string());
    o.flag("sheet", j.is<Sheet>());
    o.line("sheet", attempt([&] { return show(j.as<Sheet>()); }));
    for (const char* k : { "spots", "flags", "any" }) {
        json::value w2 = j;
        w2[k] = json::value(json::value::value_type::boolean, "true");
        std::string bad;
        Sheet into;
        const bool good = into.from_json(w2, bad);
        o.line("from_json", good ? "fine" : bad);
        w2.erase(std::string(k));
        std::string bad2;
        const bool good2 = into.check_json(w2, bad2);
        o.line("check_json", good2 ? "fine" : bad2);
    }
}

// edits of a value of one's own
inline void editing(Out& o, json::value v, const std::string& text, uint64_t param)
{
    Dice d { param };
    const json::value original = v;
    json::value other = original;
    for (int i = 0; i < 12; ++i) {
        const size_t what = d.below(12);
        const std::string key = word(d, text).substr(0, 3);
        const size_t pos = d.below(4);
        const int num = static_cast<int>(d.next());
        const std::string r = attempt([&]() -> std::string {
            switch (what) {
            case 0: v[key] = num; break;
            case 1:
                if (!v.contains(pos)) return "no such element";
                v[pos] = key;
                break;
            case 2: return v.erase(pos) ? "erased" : "not there";
            case 3: return v.erase(key) ? "erased" : "not there";
            case 4: v += json::array { num, key, json::array { other } }; break;
            case 5: v |= json::object { { key, num }, { "z", original } }; break;
            case 6: v.as_array().emplace_back(original); break;
            case 7: v.as_object().emplace(key, other); break;
            case 8: v = json::array { v, num }; break;
            case 9: v = json::object { { key, v } }; break;
            case 10: std::swap(v, other); break;
            default:
                other = v;
                v = std::move(other);
                other = original;
                break;
            }
            return "done";
        });
        o.line("edit", r);
        if (v.to_string().size() > 20000) v = original;
        o.line("now", v.to_string());
    }
    o.flag("original", original == original && other.type_name().size() > 0);
}

// numbers in floating types
inline void floating(Out& o, const std::string& text, uint64_t param)
{
    Dice d { param };
    for (int i = 0; i < 4; ++i) {
        uint64_t bits = d.next();
        double x = 0;
        memcpy(&x, &bits, 8);
        if (!(x - x == 0)) x = 0.1;
        const size_t kind = d.below(3);
        const int small = static_cast<int>(d.next() >> 44);
        if (kind == 0) x = small / 8.0;
        if (kind == 1) x = small / 1000.0;
        const float f = x > 3e38 || x < -3e38 ? 1.5f : static_cast<float>(x);
        const json::value vd(x);
        const json::value vf(f);
        const json::value vl(static_cast<long double>(x) / 3);
        o.line("double", vd.to_string());
        o.line("float", vf.to_string());
        o.line("ldouble", vl.to_string());
        o.line("double", show(vd.as<double>()));
        o.line("float", show(vf.as<float>()));
        o.line("ldouble", show(vl.as<long double>()));
        o.line("list", json::value(std::vector<double> { x, x / 3, 1e300 }).to_string());
    }
    const auto parsed = json::parsec(text);
    if (!parsed) return;
    for (const json::value* n : nodes(*parsed, 10)) {
        if (!n->is_number()) continue;
        o.line("reprint", attempt([&] { return json::value(n->as<double>()).to_string(); }));
    }
}

template <typename E>
void enum_one(Out& o, E e)
{
    o.line("enum", attempt([&] { return json::value(e).to_string(); }));
    o.line("back", attempt([&] { return show(json::value(e).as<E>()); }));
}
inline void enums(Out& o, const std::string& text, uint64_t param)
{
    Dice d { param };
    for (Hue h : { Hue::Red, Hue::Green, Hue::Blue, Hue::Dark_Red, Hue::IIII }) enum_one(o, h);
    for (Tiny h : { Tiny::none, Tiny::I, Tiny::i, Tiny::Top }) enum_one(o, h);
    for (Loose h : { loose_a, loose_b }) enum_one(o, h);
    for (Holder::Inner h : { Holder::Inner::First, Holder::Inner::second }) enum_one(o, h);
    enum_one(o, static_cast<Hue>(static_cast<int>(d.below(100)) - 50));
    enum_one(o, static_cast<Tiny>(d.below(256)));
    o.line("list", attempt([&] { return json::value(std::vector<Hue> { Hue::Red, Hue::Blue }).to_string(); }));
    o.line("map", attempt([&] { return json::value(std::map<std::string, Tiny> { { "x", Tiny::I } }).to_string(); }));
    (void)text;
}
// names to enums: the same with enums printed as names or numbers
inline void enum_names(Out& o)
{
    for (const char* n : { "Red", "red", "RED", "gReEn", "dark_red", "Dark_Red", "IIII", "iiii", "iIiI", "\xc4\xb1iii", "First", "SECOND", "loose_A", "Top", "tOP", "I", "i", "none", "Non", "\xfd" }) {
        const json::value v(n);
        convert_as<Hue>(o, "hue", v);
        convert_as<Tiny>(o, "tiny", v);
        convert_as<Loose>(o, "loose", v);
        convert_as<Holder::Inner>(o, "inner", v);
    }
}

inline void paths(Out& o, const std::string& text, uint64_t param)
{
#ifdef MEOJSON_FS_PATH_EXTENSION
    Dice d { param };
    const std::string w = word(d, text);
    const std::filesystem::path p(w);
    const json::value v(p);
    o.line("path", v.to_string());
    o.line("path", attempt([&] { return v.as<std::filesystem::path>().string(); }));
    o.line("paths", json::value(std::vector<std::filesystem::path> { p, "a/b" }).to_string());
#else
    (void)o;
    (void)text;
    (void)param;
#endif
}

enum Section { core, printed_floats, printed_enums, fs_paths, sections };

// The whole battery: one transcript per section
inline std::array<std::string, sections> run(const std::string& text, uint64_t param)
{
    std::array<Out, sections> o;
    parsing(o[core], text);
    const std::optional<json::value> parsed = json::parsec(text);
    const json::value v = parsed ? *parsed : json::value(json::array { text, 12, json::object { { "a", nullptr } } });
    reading(o[core], v, param);
    converting(o[core], v);
    building(o[core], text, param);
    editing(o[core], v, text, param);
    enum_names(o[core]);
    floating(o[printed_floats], text, param);
    enums(o[printed_enums], text, param);
    paths(o[fs_paths], text, param);
    std::array<std::string, sections> r;
    for (size_t i = 0; i < sections; ++i) r[i] = std::move(o[i].t);
    return r;
}
} // namespace battery
