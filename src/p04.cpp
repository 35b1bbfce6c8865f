// P04: parsing any bytes is memory-safe, terminates, leaks nothing and never throws.
#define PBT_IMPLEMENT
#include "mj.hpp"

#include <array>
#include <deque>
#include <sstream>

using namespace model;

const char* const pbt::property_id = "P04";

// What may be done with the value of an accepted text; everything must be as safe as parsing.
static void use(const std::optional<json::value>& r, const char* how, size_t size)
{
    if (!r) return;
    pbt::label("accepted texts");
    const std::string t = r->to_string();
    const std::string f = size < 4096 ? r->format(3) : r->dumps();
    PBT_CHECK(!t.empty() && !f.empty(), how);
    json::value copy = *r;
    PBT_CHECK(copy == *r && !(copy != *r), how << ": a copy differs: " << pbt::printable(t));
    json::value moved = std::move(copy);
    PBT_CHECK(moved == *r, how << ": a moved value differs: " << pbt::printable(t));
    copy = moved;
    PBT_CHECK(copy.to_string() == t, how << ": a copy prints differently: " << pbt::printable(t));
    mj::Exact buf(t);
    const std::optional<json::value> again = json::parse(buf.view());
    PBT_CHECK(again && *again == *r, how << ": the printed value is not parsed back: " << pbt::printable(t));
}

template <typename F>
static void entry(const char* how, const std::string& text, F&& f)
{
    try {
        use(f(), how, text.size());
    }
    catch (const pbt::Failure&) {
        throw;
    }
    catch (const std::exception& e) {
        pbt::fail(std::string(how) + " threw " + pbt::describe_current_exception() + " (" + e.what() + ") for " + pbt::printable(text));
    }
    catch (...) {
        pbt::fail(std::string(how) + " threw " + pbt::describe_current_exception() + " for " + pbt::printable(text));
    }
}

static void check_text(const std::string& text, bool all_entries)
{
    mj::Exact buf(text);
    entry("parse(string_view)", text, [&] { return json::parse(buf.view()); });
    entry("parsec(string_view)", text, [&] { return json::parsec(buf.view()); });
    PBT_CHECK(buf.view() == text, "the input was changed: " << pbt::printable(text));
    if (!all_entries) return;
    // the terminator is the last readable byte
    mj::Exact zero(std::string_view(text.c_str(), strlen(text.c_str()) + 1));
    entry("parse(const char*)", text, [&] { return json::parse(zero.view().data()); });
    entry("parsec(const char*)", text, [&] { return json::parsec(zero.view().data()); });
    {
        std::vector<char> v(text.begin(), text.end());
        v.shrink_to_fit();
        entry("parse(vector<char>)", text, [&] { return json::parse(v); });
        entry("parsec(vector<char>)", text, [&] { return json::parsec(v); });
    }
    {
        std::vector<unsigned char> v(text.begin(), text.end());
        v.shrink_to_fit();
        entry("parse(vector<unsigned char>)", text, [&] { return json::parse(v); });
    }
    {
        // blocks of 512 bytes: start anywhere within one
        std::deque<char> d(text.begin(), text.end());
        const size_t shift = pbt::hash_bytes(text) % 512;
        for (size_t i = 0; i < shift; ++i) d.push_front(' ');
        for (size_t i = 0; i < shift && text.size(); ++i) d.pop_front();
        entry("parse(deque<char>)", text, [&] { return json::parse(d); });
        entry("parsec(deque<char>)", text, [&] { return json::parsec(d); });
    }
    entry("parse(string)", text, [&] { return json::parse(text); });
    entry("parsec(string)", text, [&] { return json::parsec(text); });
    for (int flags = 0; flags < 4; ++flags) {
        std::istringstream in(text);
        entry("parse(istream)", text, [&] { return json::parse(in, (flags & 1) != 0, (flags & 2) != 0); });
    }
    entry("literals", text, [&]() -> std::optional<json::value> {
        using namespace json::literals;
        const json::value a = json::literals::operator""_json(buf.view().data(), text.size());
        json::literals::operator""_jvalue(buf.view().data(), text.size());
        json::literals::operator""_jarray(buf.view().data(), text.size());
        json::literals::operator""_jobject(buf.view().data(), text.size());
        if (!a.is_null()) PBT_CHECK(json::parse(buf.view()) == a, "the literal disagrees on " << pbt::printable(text));
        return std::nullopt;
    });
}

void pbt::property(Source& s)
{
    DocClass cls;
    const bool jsonc = s.flip();
    std::string text = gen_text(s, jsonc, cls);
    static const char* const names[] = { "valid", "mutated", "soup", "bytes" };
    pbt::label(names[cls]);
    if (text.size() >= 4) pbt::nontrivial(hash_bytes(text));
    if (cls == Mutated && text.size() < 120 && s.size() > 50) pbt::sample(text);
    pbt::note("text", text);
    check_text(text, true);
    // the end of the text everywhere: in the middle of an escape, a comment, a literal, a number, a packed step
    if (text.size() <= 300 && s.chance(25)) {
        pbt::label("all truncations");
        for (size_t n = 0; n < text.size(); ++n) check_text(text.substr(0, n), n % 8 == 0);
    }
    // the same bytes from every place within a text
    if (text.size() <= 100 && s.chance(10)) {
        pbt::label("all suffixes");
        for (size_t n = 0; n < text.size(); ++n) check_text("[" + text.substr(n), n % 8 == 0);
    }
}

static std::string repeat(const std::string& x, size_t bytes)
{
    std::string r;
    for (size_t n = bytes / std::max<size_t>(1, x.size()); n > 0; --n) r += x;
    return r;
}

struct Big
{
    const char *open, *unit, *close;
};
static const Big bigs[] = {
    { "[", "1,", "1]" }, { "[", "[],", "[]]" }, { "[", "{},", "{}]" }, { "[", "\"\",", "0]" }, { "[", "null,", "0]" }, { "[\"", "a", "\"]" },
    { "[\"", "\\\\", "\"]" }, { "[\"", "\\\"", "\"]" }, { "[\"", "\\u0041", "\"]" }, { "[\"", "\\ud83d\\ude00", "\"]" }, { "[\"", "a\\n", "\"]" },
    { "[\"", "abcdefghijklmnopqrstuvwxyz0123\\t", "\"]" }, { "[", "1", "]" }, { "[0.", "0", "]" }, { "[1e", "0", "1]" }, { "[", " ", "]" }, { "[", "\n", "]" },
    { "/*", "*", "*/[]" }, { "/*", "/", "*/[]" }, { "/*", "* ", "*/[]" }, { "", "/**/", "[]" }, { "", "//\n", "[]" }, { "[", "/**/1,//\n", "2,]" }, { "//", "/", "\n[]" },
    { "[\"", "\xf0\x9f\x98\x80", "\"]" }, { "[\"", "\x7f\xff", "\"]" }, { "{\"", "k", "\":1}" }, { "[", "true,false,", "null]" }, { "[", "1 , ", "1 ]" },
    { "[\"", "a", "" }, { "[", "1,", "" }, { "/*", "x", "" }, { "[\"", "\\ud83d", "\"]" }, { "[", "\"/*\",", "1]" }, { "[", "[1,2,3],", "0]" }, { "", "[]", "" }, { "", " ", "" }
};

void pbt::custom(const std::string& kind, const std::string& payload)
{
    if (kind == "big") { // index, bytes: linear time, or the CPU guard ends it
        std::istringstream in(payload);
        size_t i = 0, bytes = 0;
        in >> i >> bytes;
        const Big& b = bigs[i];
        const std::string text = b.open + repeat(b.unit, bytes) + b.close;
        pbt::nontrivial(hash_bytes(payload));
        check_text(text, false);
        std::deque<char> d(text.begin(), text.end());
        entry("parsec(deque<char>)", text, [&] { return json::parsec(d); });
        return;
    }
    if (kind == "keys") { // many keys
        std::string text = "{";
        for (int i = 0; i < 20000; ++i) text += "\"k" + std::to_string(i * 7919 % 20000) + "\":" + std::to_string(i) + ",";
        text += "\"end\":0}";
        pbt::nontrivial(hash_bytes(kind));
        check_text(text, false);
        return;
    }
    if (kind == "deep") { // depth and shape
        std::istringstream in(payload);
        size_t shape = 0, depth = 0;
        in >> shape >> depth;
        std::string a, z;
        for (size_t i = 0; i < depth; ++i) {
            const bool obj = shape == 1 || (shape == 2 && i % 2);
            a += obj ? "{\"k\":" : "[";
            z.insert(z.begin(), obj ? '}' : ']');
            if (shape == 3) a += "1,/**/ ";
        }
        pbt::nontrivial(hash_bytes(payload));
        check_text(a + "0" + z, false);
        check_text(a + "0", false);
        check_text(a, false);
        check_text(a + "0" + z + z, false);
        return;
    }
    pbt::nontrivial(hash_bytes(payload));
    check_text(payload, true);
}

void pbt::directed()
{
    uint64_t index = 0;
    const size_t n = sizeof bigs / sizeof *bigs;
    for (size_t i = 0; i < n; ++i) {
        if (mine(index++)) run_custom("big", std::to_string(i) + " " + std::to_string(g_tier_thorough ? 6000000 : 1000000));
    }
    if (mine(index++)) run_custom("keys", "");
    for (int shape = 0; shape < 4; ++shape) {
        for (size_t d : { 1, 2, 31, 255, 256, 257, 1000, 2000 }) {
            if (mine(index++)) run_custom("deep", std::to_string(shape) + " " + std::to_string(d));
        }
    }
    // every short text over the bytes the scanners look ahead for, at the very end of its buffer
    const std::string alphabet = g_tier_thorough ? "[]{},:\"\\/*u0d8-.eEtfn \n\t\x01\xff" : "[{\"\\/*ud8-.e1t";
    const std::vector<std::string> pre = { "", "[", "[\"", "{\"", "[\"\\u", "[\"\\ud83d", "[\"\\ud83d\\u", "[1", "[-", "[1.", "[1e", "{\"a\"", "{\"a\":", "[1,", "/", "/*", "//", "[]/", "[]/*", "[t", "[fals", "[nul" };
    for (auto& p : pre) {
        if (mine(index++)) run_custom("text", p);
        for (char a : alphabet) {
            if (mine(index++)) run_custom("text", p + a);
            for (char b : alphabet) {
                if (mine(index++)) run_custom("text", p + a + b);
                for (char c : alphabet) {
                    if (mine(index++)) run_custom("text", p + a + b + c);
                }
            }
        }
    }
    // strings and comments that end the buffer at every length around the packed widths
    for (size_t len = 0; len <= 140; ++len) {
        for (const std::string& tail : { std::string(), std::string("\""), std::string("\\"), std::string("\\u00"), std::string("\x01"), std::string("\xc3"), std::string("\"]") }) {
            for (const char* open : { "[\"", "{\"", "/*", "//", "[ " }) {
                if (mine(index++)) run_custom("text", open + std::string(len, open[1] == ' ' ? ' ' : 'a') + tail);
            }
        }
    }
}
