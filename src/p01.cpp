// P01: strict parsing accepts exactly the JSON grammar.
#define PBT_IMPLEMENT
#include "mj.hpp"

#include <deque>
#include <list>
#include <sstream>

using namespace model;

const char* const pbt::property_id = "P01";

static void check_text(const std::string& text, bool all_entries)
{
    using namespace json::literals;
    const bool expected = parse(text, false).has_value();
    mj::Exact buf(text);
    PBT_CHECK(json::parse(buf.view()).has_value() == expected, "string_view: expected " << (expected ? "accepted" : "rejected") << ": " << pbt::printable(text));
    const std::optional<json::value> r = json::parse(text);
    PBT_CHECK(r.has_value() == expected, "string: expected " << (expected ? "accepted" : "rejected") << ": " << pbt::printable(text));
    if (r) PBT_CHECK(r->valid() && (r->is_array() || r->is_object()), "the root is neither an array nor an object: " << pbt::printable(text));
    if (!all_entries) return;
    PBT_CHECK(json::parse(std::vector<char>(text.begin(), text.end())).has_value() == expected, "vector: " << pbt::printable(text));
    PBT_CHECK(json::parse(std::list<char>(text.begin(), text.end()).size() ? std::deque<char>(text.begin(), text.end()) : std::deque<char>()).has_value() == expected, "deque: " << pbt::printable(text));
    // up to the first NUL
    const std::string c(text.c_str());
    const bool c_expected = parse(c, false).has_value();
    PBT_CHECK(json::parse(c.c_str()).has_value() == c_expected, "char pointer: " << pbt::printable(text));
    std::istringstream in(text);
    PBT_CHECK(json::parse(in, false).has_value() == expected, "stream: " << pbt::printable(text));
    const json::value lit = json::literals::operator""_json(text.data(), text.size());
    PBT_CHECK(lit.is_null() != expected, "literal: " << pbt::printable(text));
    PBT_CHECK(json::literals::operator""_jvalue(text.data(), text.size()).is_null() != expected, "literal: " << pbt::printable(text));
}

void pbt::property(Source& s)
{
    DocClass cls;
    std::string text = gen_text(s, s.chance(15), cls);
    const bool ok = parse(text, false).has_value();
    static const char* const names[] = { "valid", "mutated", "soup", "bytes" };
    pbt::label(std::string(names[cls]) + (ok ? ": accepted" : ": rejected"));
    const size_t p = text.find_first_not_of(" \t\r\n");
    if (p != std::string::npos && (text[p] == '[' || text[p] == '{') && text.size() >= p + 3) {
        pbt::nontrivial(hash_bytes(text));
        if (s.size() > 60 && text.size() < 200) pbt::sample(std::string(ok ? "accept " : "reject ") + text);
    }
    pbt::note("text", text);
    check_text(text, true);

    // every truncation of a small valid document, and every single byte replaced
    if (ok && text.size() <= 60 && s.chance(30)) {
        pbt::label("all truncations");
        for (size_t n = 0; n < text.size(); ++n) check_text(text.substr(0, n), false);
    }
    if (ok && text.size() <= 40 && s.chance(20)) {
        pbt::label("every byte replaced");
        for (size_t i = 0; i < text.size(); ++i) {
            std::string t = text;
            for (char c : std::string("[]{},:\"\\/*09-.eE+ntf \x1f\x80" "a") + '\0') {
                t[i] = c;
                check_text(t, false);
            }
        }
    }
}

void pbt::custom(const std::string&, const std::string& payload)
{
    pbt::nontrivial(hash_bytes(payload));
    check_text(payload, false);
}

// all words of up to `n` letters, between `pre` and `post`
static uint64_t g_index = 0;
static void words(const std::vector<std::string>& letters, size_t n, const std::string& pre, const std::string& post, const char* name)
{
    uint64_t count = 0;
    std::string cur = pre;
    std::function<void(size_t)> go = [&](size_t left) {
        if (pbt::mine(g_index++)) {
            pbt::run_custom("text", cur + post);
            ++count;
        }
        if (!left) return;
        for (auto& l : letters) {
            const size_t sz = cur.size();
            cur += l;
            go(left - 1);
            cur.resize(sz);
        }
    };
    go(n);
    pbt::label(std::string("enumerated: ") + name, count);
}

void pbt::directed()
{
    const int more = g_tier_thorough;
    words({ "-", "0", "1", "9", ".", "e", "E", "+" }, 5 + more, "[", "]", "numbers");
    words({ "-", "0", "7", ".", "e", "+" }, 4 + more, "[", "", "numbers at the end");
    words({ "-", "0", "7", ".", "e", "+", ",", " " }, 4 + more, "{\"\":", "}", "numbers in an object");
    words({ "[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "1" }, 6 + more, "", "", "structure");
    words({ "[", "]", ",", " ", "1", "/", "*", std::string(1, '\0'), "\n" }, 5 + more, "[", "]", "blanks");
    words({ " ", "\t", "\n", "\r", "\v", "\f", "\xa0", "/", "//", "/**/", std::string(1, '\0'), "\xef\xbb\xbf", "x", "]" }, 3 + more, "[]", "", "after the root");
    words({ " ", "\t", "\n", "\r", "\v", "\f", "\xa0", "/", "//", "/**/", std::string(1, '\0'), "\xef\xbb\xbf", "x", "[" }, 3 + more, "", "[]", "before the root");
    words({ "\\", "u", "n", "d", "8", "D", "\"", "/", "\x1f", "c", "\x80" }, 4 + more, "[\"", "\"]", "strings");
    words({ "\\ud83d", "\\udca9", "\\u0041", "\\n", "a", "\"", "\\", "u", "\\ud8", "\\uDBFF", "\\uDFFF", "\xf0\x9f\x92\xa9" }, 4 + more, "[\"", "\"]", "surrogates");
    words({ "n", "u", "l", "t", "r", "e", "f", "a", "s", "N" }, 5, "[", "]", "literals");
    words({ "\"a\":1", "\"\\u0061\":2", "\"b\":3", "\"a \":4", "\"\":5", ",", "}", "{\"a\":1}" }, 5 + more, "{", "}", "members");
    for (const char* w : { "null", "true", "false", "\"abc\"", "-12.5e+3", "[]", "{}", "\"\\u00e9\\n\"" }) {
        const std::string base = w;
        for (const char* frame : { "[@]", "{\"k\":@}", "[1,@,2]", "[[@]]", "[@", "{\"k\":@" }) {
            const std::string f = frame;
            const size_t at = f.find('@');
            auto put = [&](const std::string& x) {
                if (mine(g_index++)) run_custom("text", f.substr(0, at) + x + f.substr(at + 1));
            };
            for (size_t n = 0; n <= base.size(); ++n) put(base.substr(0, n));
            for (size_t i = 0; i < base.size(); ++i) {
                for (int b = 0; b < 256; ++b) {
                    std::string x = base;
                    x[i] = static_cast<char>(b);
                    put(x);
                }
            }
            for (size_t i = 0; i <= base.size(); ++i) {
                for (int b = 0; b < 256; ++b) put(base.substr(0, i) + static_cast<char>(b) + base.substr(i));
            }
        }
    }
    // every byte at every place of strings of every length around the packed widths
    const size_t max = more ? 140 : 72;
    for (size_t n = 0; n <= max; ++n) {
        for (size_t p = 0; p < n; ++p) {
            const std::string a = "[\"" + std::string(p, 'a'), b(n - p - 1, '~');
            for (int c = 0; c < 256; ++c) {
                if (!more && n > 36 && c >= 0x60 && c < 0xf0) continue;
                if (mine(g_index++)) run_custom("text", a + static_cast<char>(c) + b + "\"]");
            }
        }
        if (mine(g_index++)) run_custom("text", "[\"" + std::string(n, 'a'));
    }
    // every \uXXXX unit, alone and followed by a low half
    for (unsigned u = 0; u < 0x10000; ++u) {
        char b[40];
        snprintf(b, sizeof b, "[\"\\u%04x\"]", u);
        if (mine(g_index++)) run_custom("text", b);
        if (u >= 0xd000 && u < 0xe800) {
            snprintf(b, sizeof b, "[\"\\u%04X\\uDC00\"]", u);
            if (mine(g_index++)) run_custom("text", b);
            snprintf(b, sizeof b, "[\"\\uD800\\u%04x\"]", u);
            if (mine(g_index++)) run_custom("text", b);
        }
    }
}
