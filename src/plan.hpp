// Documents of any scale, and what is done with them: shared by P21 (allocations) and P24 (work).
// The including file defines pbt::Cost and pbt::cost_of.
#pragma once
#include <list>
#include <unordered_map>

namespace plan
{
struct Tree // nests as deep as its data
{
    std::string name;
    std::vector<Tree> kids;
    std::optional<int> weight;
    MEO_JSONIZATION(name, MEO_OPT kids, MEO_OPT weight);
};
}

namespace pbt
{
using model::V;

// ------------------------------------------------------------------ data of any scale
// One level or element of a document, repeated to make it larger
struct Unit
{
    std::string key, text;        // raw bytes of a member name and of a string
    std::string number;
    size_t fill = 0;              // the unit's own string is repeated so often
    int kind = 0;                 // of the scalar
};
static std::string scalar(const Unit& u)
{
    std::string s;
    switch (u.kind) {
    case 0:
        model::put_string(s, u.text);
        return s;
    case 1: return u.number;
    case 2: return "true";
    default: return "null";
    }
}

struct Plan
{
    size_t shape = 0; // 0 wide array, 1 wide object, 2 deep, 3 deep with siblings, 4 long string, 5 long key, 6 list of lists, 7 list of records, 8 long string of escapes, 9 blanks
    std::vector<Unit> units;
    std::string deep; // opening brackets, repeated: [ or {
    size_t blanks = 0;
    bool unicode = false;
};
static const char* const shapes[] = { "wide array", "wide object", "deep", "deep with siblings", "long strings", "long keys", "lists in a list", "records in a list", "strings of escapes", "blanks" };

static std::string make(const Plan& p, size_t n)
{
    const auto unit = [&](size_t i) -> const Unit& { return p.units[i % p.units.size()]; };
    const std::string blank(p.blanks, ' ');
    std::string t;
    switch (p.shape) {
    case 0:
        t = "[";
        for (size_t i = 0; i < n; ++i) t += (i ? "," : "") + blank + scalar(unit(i));
        return t + "]";
    case 1:
        t = "{";
        for (size_t i = 0; i < n; ++i) {
            std::string k;
            model::put_string(k, std::to_string(i * 7919 % n) + "-" + unit(i).key);
            t += (i ? "," : "") + k + ":" + blank + scalar(unit(i));
        }
        return t + "}";
    case 2:
    case 3: {
        std::string close;
        const size_t d = std::min<size_t>(n, 1500);
        for (size_t i = 0; i < d; ++i) {
            const Unit& u = unit(i);
            if (p.deep[i % p.deep.size()] == '[') {
                t += "[" + (p.shape == 3 ? scalar(u) + "," : std::string()) + blank;
                close += ']';
            }
            else {
                std::string k;
                model::put_string(k, u.key);
                t += "{";
                if (p.shape == 3) {
                    std::string k2;
                    model::put_string(k2, u.key + "2");
                    t += k2 + ":" + scalar(u) + ",";
                }
                t += k + ":" + blank;
                close += '}';
            }
        }
        // something heavy at the bottom
        t += "[";
        for (size_t i = 0; i < n / 4; ++i) t += (i ? "," : "") + scalar(unit(i));
        t += "]";
        return t + std::string(close.rbegin(), close.rend());
    }
    case 4:
    case 5:
    case 8: {
        std::string s;
        for (size_t i = 0; s.size() < n * 8; ++i) {
            if (p.shape == 8) {
                static const char* const e[] = { "\\n", "\\\"", "\\u0001", "\\\\", "\\/", "\\u00e9", "\\ud83d\\ude00" };
                s += e[p.unicode ? i % 7 : i % 5];
                continue;
            }
            std::string q;
            model::put_string(q, unit(i).text + "x");
            s += q.substr(1, q.size() - 2);
        }
        if (p.shape == 5) return "{\"" + s + "\":[1]}";
        return "[\"" + s + "\",1]";
    }
    case 6:
        t = "[";
        for (size_t i = 0; i < n; ++i) {
            t += i ? ",[" : "[";
            for (size_t k = 0; k < i % 4; ++k) t += (k ? "," : "") + scalar(unit(i + k));
            t += "]";
        }
        return t + "]";
    case 7:
        t = "[";
        for (size_t i = 0; i < n; ++i) {
            std::string k;
            model::put_string(k, unit(i).key);
            t += (i ? ",{" : "{") + k + ":" + scalar(unit(i)) + ",\"z" + std::to_string(i) + "\":[" + scalar(unit(i + 1)) + "]}";
        }
        return t + "]";
    default:
        t = "[1,";
        for (size_t i = 0; i < n; ++i) t += i % 5 ? " \n" : "\t\r";
        return t + "2]";
    }
}

static size_t weight(const json::value& v)
{
    size_t w = 32;
    if (v.is_array()) {
        for (const json::value& x : v.as_array()) w += weight(x);
    }
    else if (v.is_object()) {
        for (const auto& [k, x] : v.as_object()) w += 64 + k.size() + weight(x);
    }
    else if (v.is_string()) w += v.as_string_view().size();
    else if (v.is_number()) w += 8;
    return w;
}

struct Measured
{
    std::string name;
    Cost cost;
    double size; // what it may be proportional to
    double levels = 1; // for the work: how often a level may look at all that is below
};

static plan::Tree make_tree(const Plan& p, size_t n, size_t depth)
{
    plan::Tree root;
    plan::Tree* at = &root;
    for (size_t i = 0; i < n; ++i) {
        const Unit& u = p.units[i % p.units.size()];
        at->name = u.text;
        at->weight = static_cast<int>(i);
        at->kids.emplace_back();
        if (u.kind == 0) at->kids.emplace_back().name = u.key;
        if (i < depth) at = &at->kids[0];
        else at->kids[0].name = u.key;
    }
    return root;
}

static std::vector<Measured> measure(const Plan& p, size_t n)
{
    std::vector<Measured> r;
    const std::string text = make(p, n);
    const double len = static_cast<double>(text.size());
    std::optional<json::value> v;
    const auto run = [&](const char* name, double size, auto&& f) { r.push_back({ name, cost_of(f), size }); };
    run("parse", len, [&] { v = json::parse(text); });
    PBT_CHECK(v, "not parsed: " << printable(text));
    const double w = static_cast<double>(weight(*v)), both = w + len;
    r.back().size = both;
    run("parsec", both, [&] { json::parsec(text); });
    run("parse a vector", both, [&] { json::parse(std::vector<char>(text.begin(), text.end())); });
    {
        std::istringstream in(text);
        run("parse a stream", both, [&] { json::parse(in); });
    }
    const std::string cut = text.substr(0, text.size() - 1);
    run("parse a text cut short", both, [&] { json::parse(cut); });
    run("copy", w, [&] { json::value c(*v); });
    json::value copy;
    run("copy-assign", w, [&] { copy = *v; });
    run("compare", w, [&] { PBT_CHECK(copy == *v); });
    std::string out;
    run("to_string", 0, [&] { out = v->to_string(); });
    r.back().size = both + static_cast<double>(out.size());
    run("format", 0, [&] { out = v->format(2); });
    r.back().size = both + static_cast<double>(out.size());
    {
        std::ostringstream o;
        run("stream out", 0, [&] { o << *v; });
        r.back().size = both + static_cast<double>(o.str().size());
    }
    run("is", w, [&] { (void)(v->is<std::vector<std::vector<std::string>>>() || v->is<std::map<std::string, std::variant<bool, std::vector<json::value>>>>() || v->is<std::vector<std::map<std::string, json::value>>>()); });
    if (v->is_array()) {
        run("to a vector of values", w, [&] { (void)v->as<std::vector<json::value>>(); });
        run("to an array", w, [&] { (void)v->as<json::array>(); });
        run("array to a list", w, [&] { (void)static_cast<std::list<json::value>>(v->as_array()); });
        if (v->is<std::vector<std::string>>()) run("to a vector of strings", w, [&] { (void)v->as<std::vector<std::string>>(); });
        if (v->is<std::vector<std::variant<std::string, double, bool>>>()) run("to a vector of variants", w, [&] { (void)v->as<std::vector<std::variant<std::string, double, bool>>>(); });
        if (v->is<std::vector<std::vector<json::value>>>()) run("to a vector of vectors", w, [&] { (void)v->as<std::vector<std::vector<json::value>>>(); });
        if (v->is<std::vector<std::map<std::string, json::value>>>()) run("to a vector of maps", w, [&] { (void)v->as<std::vector<std::map<std::string, json::value>>>(); });
        const auto plain = v->as<std::vector<json::value>>();
        run("from a vector", w, [&] { json::value x(plain); });
        run("array from a vector", w, [&] { json::array x(plain); });
        run("append", 2 * w, [&] { copy += v->as_array(); });
        copy = *v;
        run("sum", 2 * w, [&] { (void)(*v + v->as_array()); });
        run("lookups", w, [&] {
            for (size_t i = 0; i < v->as_array().size(); ++i) (void)(v->contains(i) && v->find_value(i) && v->at(i).empty());
        });
    }
    if (v->is_object()) {
        run("to a map of values", w, [&] { (void)v->as<std::map<std::string, json::value>>(); });
        run("to an object", w, [&] { (void)v->as<json::object>(); });
        if (v->is<std::map<std::string, std::vector<json::value>>>()) run("to a map of vectors", w, [&] { (void)v->as<std::map<std::string, std::vector<json::value>>>(); });
        const auto plain = v->as<std::unordered_map<std::string, json::value>>();
        run("from a map", w, [&] { json::value x(plain); });
        run("object from a map", w, [&] { json::object x(plain); });
        run("merge", 2 * w, [&] { copy |= v->as_object(); });
        copy = *v;
        run("union", 2 * w, [&] { (void)(*v | v->as_object()); });
        run("lookups", w, [&] {
            for (const auto& [k, x] : v->as_object()) (void)(v->contains(k) && v->find_value(k) && v->at(k).empty());
        });
    }
    run("edit a copy", w, [&] {
        if (copy.is_array()) {
            for (size_t i = 0; i < 20; ++i) copy.as_array().push_back("x");
        }
        else {
            for (size_t i = 0; i < 20; ++i) copy.as_object().emplace("new" + std::to_string(i), "x");
        }
    });
    run("move", 32, [&] {
        json::value a = std::move(copy);
        copy = std::move(a);
    });
    // structs
    if (p.shape <= 3) {
        const bool deep = p.shape >= 2;
        const plan::Tree t = make_tree(p, deep ? std::min<size_t>(n, 300) : n, deep ? 1000 : 0);
        json::value j;
        run("struct to JSON", 0, [&] { j = t; });
        const double tw = static_cast<double>(weight(j));
        r.back().size = tw;
        plan::Tree back;
        run("struct from JSON", tw, [&] { back = j.as<plan::Tree>(); });
        r.back().levels = deep ? static_cast<double>(std::min<size_t>(n, 300)) : 2;
    }
    return r;
}

static Unit gen_unit(Source& s)
{
    Unit u;
    u.key = model::gen_string(s, 2).substr(0, 20);
    u.text = model::gen_string(s, 4).substr(0, 60);
    for (std::string* t : { &u.key, &u.text }) {
        for (char& c : *t) {
            if (static_cast<unsigned char>(c) < 0x20 && s.flip()) c = 'c';
        }
    }
    u.number = model::gen_number(s);
    u.kind = static_cast<int>(s.weighted({ 5, 3, 1, 1 }));
    return u;
}

static Plan gen_plan(Source& s)
{
    Plan p;
    p.shape = s.below(sizeof shapes / sizeof *shapes);
    do {
        p.units.push_back(gen_unit(s));
    } while (s.more(3) && p.units.size() < 6);
    do {
        p.deep += s.flip() ? '[' : '{';
    } while (s.more(2) && p.deep.size() < 5);
    p.blanks = s.below(4) ? 0 : s.below(10);
    p.unicode = s.flip();
    return p;
}
}
