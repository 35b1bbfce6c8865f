// Results do not depend on the locale.
#define PBT_IMPLEMENT
#include <clocale>
#include <locale>

#include "battery_gen.hpp"

namespace pbt
{
const char* const property_id = "P20";

// separators and names nobody expects
struct Punct : std::numpunct<char>
{
    char point, sep;
    Punct(char p, char s) : point(p), sep(s) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return sep ? "\3" : ""; }
    std::string do_truename() const override { return "vrai"; }
    std::string do_falsename() const override { return "faux"; }
};
// classes and cases of characters turned around
struct Types : std::ctype<char>
{
    static mask* table()
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i) t[i] = i == ' ' || i == '1' ? print : i == 'x' || i == 0xa0 ? mask(space | print) : i == '"' ? digit : mask(alpha | print);
        return t;
    }
    Types() : std::ctype<char>(table()) {}
    char do_toupper(char c) const override { return c == 'i' ? '\xdd' : c == 'e' ? '1' : c; }
    char do_tolower(char c) const override { return c == 'I' ? '\xfd' : c == 'E' ? '2' : c; }
};

struct Setting
{
    std::string name;
    const char* c_locale;    // null: as it is
    int category;
    bool thread;             // through uselocale
    std::optional<std::locale> cxx;
};

static const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = [] {
        std::vector<std::string> r;
        const std::string l = getenv("P20_LOCALES") ? getenv("P20_LOCALES") : "";
        std::istringstream in(l);
        for (std::string x; in >> x;) r.push_back(x);
        return r;
    }();
    return n;
}

static const std::vector<Setting>& settings()
{
    static const std::vector<Setting> all = [] {
        std::vector<Setting> r;
        for (const std::string& n : names()) {
            r.push_back({ "setlocale(LC_ALL) " + n, n.c_str(), LC_ALL, false, std::nullopt });
            r.push_back({ "setlocale(LC_NUMERIC) " + n, n.c_str(), LC_NUMERIC, false, std::nullopt });
            r.push_back({ "setlocale(LC_CTYPE) " + n, n.c_str(), LC_CTYPE, false, std::nullopt });
            r.push_back({ "uselocale " + n, n.c_str(), LC_ALL, true, std::nullopt });
            r.push_back({ "std::locale::global " + n, nullptr, 0, false, std::locale(n) });
        }
        const std::locale c = std::locale::classic();
        r.push_back({ "comma and dot", nullptr, 0, false, std::locale(c, new Punct(',', '.')) });
        r.push_back({ "comma and grouping by digits", nullptr, 0, false, std::locale(c, new Punct(',', '1')) });
        r.push_back({ "dot and comma", nullptr, 0, false, std::locale(c, new Punct('.', ',')) });
        r.push_back({ "point e", nullptr, 0, false, std::locale(c, new Punct('e', 0)) });
        r.push_back({ "ctype", nullptr, 0, false, std::locale(c, new Types) });
        if (!names().empty()) {
            r.push_back({ "both " + names()[0], names()[0].c_str(), LC_ALL, false, std::locale(std::locale(std::locale(names()[0]), new Punct(',', '.')), new Types) });
        }
        return r;
    }();
    return all;
}

struct Enter
{
    const Setting& s;
    locale_t mine = nullptr;
    explicit Enter(const Setting& s_) : s(s_)
    {
        if (s.cxx) std::locale::global(*s.cxx);
        if (s.c_locale && s.thread) {
            mine = newlocale(LC_ALL_MASK, s.c_locale, nullptr);
            if (!mine) fail("no locale " + s.name);
            uselocale(mine);
        }
        else if (s.c_locale && !setlocale(s.category, s.c_locale)) fail("no locale " + s.name);
    }
    ~Enter()
    {
        if (mine) {
            uselocale(LC_GLOBAL_LOCALE);
            freelocale(mine);
        }
        std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "C");
    }
};

// streams with a locale of their own
static std::string imbued(const std::optional<json::value>& v, const std::string& text, const std::locale& l)
{
    std::string r;
    std::istringstream in(text);
    in.imbue(l);
    const auto p = json::parse(in, true, true);
    r += p ? p->to_string() : "rejected";
    if (v) {
        std::ostringstream o;
        o.imbue(l);
        o << *v << '\n';
        o << json::array { *v, 1234567, 1.5, true } << json::object { { "a", *v } };
        r += o.str();
    }
    return r;
}

using Transcripts = decltype(battery::run("", 0));

static void one(const battery::Input& in, const Setting& s, const Transcripts& want)
{
    Untracked u; // locales keep what they made
    const auto v = json::parsec(in.text);
    const std::string want_streams = imbued(v, in.text, std::locale::classic());
    Transcripts got;
    std::string got_streams;
    {
        Enter e(s);
        got = battery::run(in.text, in.param);
        got_streams = imbued(v, in.text, s.cxx ? *s.cxx : std::locale::classic());
    }
    PBT_CHECK(got_streams == want_streams, "in " << s.name << ": " << printable(got_streams) << " instead of " << printable(want_streams));
    for (size_t i = 0; i < battery::sections; ++i) {
        if (got[i] == want[i]) continue;
        size_t at = 0;
        while (at < got[i].size() && at < want[i].size() && got[i][at] == want[i][at]) ++at;
        at = got[i].rfind('\n', at ? at - 1 : 0) + 1;
        fail("in " + s.name + ": " + printable(got[i].substr(at, 200)) + " instead of " + printable(want[i].substr(at, 200)));
    }
    // values made in one locale are used in the other
    if (v) {
        std::string in_locale;
        {
            Enter e(s);
            in_locale = json::parsec(in.text)->format() + json::value(static_cast<double>(in.param) / 7).to_string();
        }
        PBT_CHECK(in_locale == v->format() + json::value(static_cast<double>(in.param) / 7).to_string(), "in " << s.name);
    }
}

void property(Source& s)
{
    static const bool ready = (Untracked(), settings().size()) > 0; // kept for good
    (void)ready;
    const battery::Input in = battery::gen_input(s);
    const Setting& where = settings()[s.below(settings().size())];
    one(in, where, battery::run(in.text, in.param));
    label(where.name);
    if (model::parse(in.text, true) && in.text.size() > 4) nontrivial(hash_bytes(battery::pack(in), hash_bytes(where.name)));
    if (in.text.size() < 150) sample(where.name + ": " + printable(in.text));
}
void custom(const std::string& kind, const std::string& b)
{
    const battery::Input in = battery::unpack(b);
    const Transcripts want = battery::run(in.text, in.param);
    for (const Setting& s : settings()) {
        if (s.name == kind || kind == "all") one(in, s, want);
    }
    nontrivial(hash_bytes(b, hash_bytes(kind)));
}
void directed()
{
    {
        Untracked u;
        settings();
    }
    size_t i = 0;
    // every byte where blanks, digits, literals and names stand
    for (int c = 0; c < 256; ++c) {
        const std::string b(1, static_cast<char>(c));
        for (const std::string& t : { "[" + b + "1]", "[1" + b + "]", "[1" + b + "5]", "[\"" + b + "\"]", "[\"1" + b + "5\"]", "{\"" + b + "\":1" + "}" + b }) {
            if (mine(i++)) run_custom("all", battery::pack({ t, static_cast<uint64_t>(c) }));
        }
    }
    for (const char* t : { "[1.5]", "[1,5]", "[1.234,567]", "[1234567.25]", "[\"1.5\",\"1,5\",\"1.234.567\"]", "[1e5,1E+5,-0.5,0.1e-3]", "[true,false,null]", "[\"IIII\",\"iiii\",\"I\",\"i\"]", "[[1.5,2.5],[3.25,1000000.125]]" }) {
        if (mine(i++)) run_custom("all", battery::pack({ t, 12345678901234567ull }));
    }
}
}
