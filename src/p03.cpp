// P03: JSONC is JSON plus comments and one trailing comma.
#define PBT_IMPLEMENT
#include "mj.hpp"

#include <deque>
#include <sstream>

using namespace model;

const char* const pbt::property_id = "P03";

static void check_text(const std::string& text, bool all_entries)
{
    const std::optional<V> want = parse(text, true);
    mj::Exact buf(text);
    const std::optional<json::value> r = json::parsec(buf.view());
    PBT_CHECK(r.has_value() == want.has_value(), "expected " << (want ? "accepted" : "rejected") << ": " << pbt::printable(text));
    if (r) {
        const V got = mj::to_model(*r);
        PBT_CHECK(got == *want, "got " << mj::show(got) << " for " << pbt::printable(text));
    }
    // every strict text is accepted with the same value
    const std::optional<json::value> strict = json::parse(buf.view());
    if (strict) PBT_CHECK(r && *r == *strict, "strict and JSONC disagree: " << pbt::printable(text));
    if (!all_entries) return;
    auto same = [&](const std::optional<json::value>& x, const char* what) {
        PBT_CHECK(x.has_value() == want.has_value() && (!x || mj::to_model(*x) == *want), what << ": " << pbt::printable(text));
    };
    same(json::parsec(text), "string");
    same(json::parsec(std::vector<char>(text.begin(), text.end())), "vector");
    same(json::parsec(std::deque<char>(text.begin(), text.end())), "deque");
    if (text.find('\0') == std::string::npos) same(json::parsec(text.c_str()), "char pointer");
    std::istringstream in(text);
    same(json::parse(in, false, true), "stream");
}

// The document without its comments and trailing commas, by a scan that knows about strings only.
static std::string stripped(const std::string& t)
{
    std::string out;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '"') {
            size_t e = i + 1;
            while (e < t.size() && t[e] != '"') e += t[e] == '\\' ? 2 : 1;
            out += t.substr(i, e + 1 - i);
            i = e + 1;
        }
        else if (t[i] == '/' && i + 1 < t.size() && t[i + 1] == '/') {
            while (i < t.size() && t[i] != '\n') ++i;
            out += ' ';
        }
        else if (t[i] == '/') {
            i = t.find("*/", i + 2) + 2;
            out += ' ';
        }
        else if (t[i] == ']' || t[i] == '}') {
            size_t e = out.size();
            while (e > 0 && strchr(" \t\r\n", out[e - 1])) --e;
            if (e > 0 && out[e - 1] == ',') out[e - 1] = ' ';
            out += t[i++];
        }
        else out += t[i++];
    }
    return out;
}

void pbt::property(Source& s)
{
    if (s.chance(45)) {
        // a valid one: the value is known from its making
        Style st = gen_style(s, true);
        const V v = gen_root(s, 25, 5);
        const std::string text = render_doc(s, st, v);
        pbt::note("text", text);
        pbt::label(st.extensions ? "valid, with comments or trailing commas" : "valid, plain");
        if (st.extensions) {
            pbt::nontrivial(hash_bytes(text));
            if (text.size() < 200) pbt::sample(text);
        }
        const std::optional<json::value> r = json::parsec(text);
        PBT_CHECK(r, "a valid document with comments is rejected: " << pbt::printable(text));
        PBT_CHECK(mj::to_model(*r) == v, "got " << mj::show(mj::to_model(*r)) << " for " << pbt::printable(text));
        const std::string plain = stripped(text);
        const std::optional<json::value> p = json::parse(plain);
        PBT_CHECK(p && *p == *r, "the text without its comments: " << pbt::printable(plain));
        check_text(text, true);
        if (text.size() < 80 && s.chance(30)) {
            pbt::label("all truncations");
            for (size_t n = 0; n < text.size(); ++n) check_text(text.substr(0, n), false);
        }
        if (text.size() < 50 && s.chance(30)) {
            // a comment inserted at every place: accepted between tokens, text inside strings, else rejected
            pbt::label("a comment at every place");
            for (const char* c : { "/**/", "//\n", "/* ] */", "/", "//", "/*", ",", "/***/" }) {
                for (size_t i = 0; i <= text.size(); ++i) check_text(text.substr(0, i) + c + text.substr(i), false);
            }
        }
        return;
    }
    DocClass cls;
    const std::string text = gen_text(s, true, cls);
    const bool ok = parse(text, true).has_value();
    pbt::note("text", text);
    pbt::label(ok ? "other: accepted" : "other: rejected");
    if (text.find('/') != std::string::npos) pbt::nontrivial(hash_bytes(text));
    check_text(text, true);
}

void pbt::custom(const std::string&, const std::string& payload)
{
    pbt::nontrivial(hash_bytes(payload));
    check_text(payload, false);
}

static uint64_t g_index = 0;
static void words(const std::vector<std::string>& letters, size_t n, const std::string& pre, const std::string& post, const char* name)
{
    uint64_t count = 0;
    std::string cur = pre;
    std::function<void(size_t)> go = [&](size_t left) {
        if (pbt::mine(g_index++)) {
            pbt::run_custom("text", cur + post);
            ++count;
        }
        if (!left) return;
        for (auto& l : letters) {
            const size_t sz = cur.size();
            cur += l;
            go(left - 1);
            cur.resize(sz);
        }
    };
    go(n);
    pbt::label(std::string("enumerated: ") + name, count);
}

void pbt::directed()
{
    const int more = g_tier_thorough;
    words({ "/", "*", "\n", "\"", " ", "1", ",", "]", "[" }, 5 + more, "[", "]", "in an array");
    words({ "/", "*", "\n", "x", "[]", "\r", "\\" }, 6 + more, "", "", "around the root");
    words({ "/", "*", "\n", "x", "\"", std::string(1, '\0'), " " }, 6 + more, "[]", "", "after the root");
    words({ "/", "*", "\n", "x", "\"", std::string(1, '\0'), " " }, 5 + more, "", "[]", "before the root");
    words({ "/", "*", "\"", "\\", "a", "\n" }, 5 + more, "[\"", "\"]", "in a string");
    words({ "//", "/*", "*/", "\n", "\"", "\"a\"", ":", "1", ",", "}" }, 5 + more, "{", "}", "in an object");
    words({ "//\n", "/**/", "1", ",", " ", "]", "[", "{", "}", "\"k\":" }, 5 + more, "[", "]", "trailing commas");
    words({ "/**/", "//\r\n", "\"k\"", ":", "1", ",", "}", "{" }, 6 + more, "{", "}", "trailing commas in objects");
    words({ "*", "/", "a" }, 8 + more, "/*", "*/[1]", "star runs");
    words({ "*", "/", "\n" }, 8 + more, "[1,//", "\n2]", "line comments");
    for (const char* frame : { "@[@1@,@2@]@", "@{@\"a\"@:@1@,@\"b\"@:@[@]@}@", "@[@[@]@,@{@}@,@]@", "@{@\"a\"@:@\"@\"@,@}@", "@[@null@,@-1.5e3@,@true@]@" }) {
        for (const char* c : { "/**/", "//\n", "/*/ */", "/* // */", "/* /* */", "//*/\n", "/***/", "/*\n*/", "//\r\n", "/*\"*/", "//\"\n", "/*\\*/", " /**/ //x\n\t", "/", "//", "/*", "*/", "/ /", "//\r", "/**", "/* *" }) {
            const std::string f = frame;
            // everywhere at once, and at one place only
            std::string all;
            size_t places = 0;
            for (char x : f) {
                if (x == '@') {
                    all += c;
                    ++places;
                }
                else all += x;
            }
            if (mine(g_index++)) run_custom("text", all);
            for (size_t k = 0; k < places; ++k) {
                std::string one;
                size_t i = 0;
                for (char x : f) {
                    if (x == '@') {
                        if (i++ == k) one += c;
                    }
                    else one += x;
                }
                if (mine(g_index++)) run_custom("text", one);
            }
        }
    }
    // every byte inside each kind of comment, and long comments
    for (int b = 0; b < 256; ++b) {
        const char c = static_cast<char>(b);
        for (const std::string& t : { std::string("[1/*") + c + "*/]", std::string("[1//") + c + "\n]", std::string("[1/") + c + "/ ]", std::string("[1/*") + c + "/]", std::string("[1/*/") + c + "*/]", std::string("[1]//") + c, std::string("[1]/*") + c, std::string("[1]/") + c }) {
            if (mine(g_index++)) run_custom("text", t);
        }
    }
    for (size_t n = 0; n < 80; ++n) {
        for (const std::string& t : { "[/*" + std::string(n, '*') + "/1]", "[/*" + std::string(n, ' ') + "*/1]", "[//" + std::string(n, '/') + "\n1]", "[/*" + std::string(n, '/') + "*/1]" }) {
            if (mine(g_index++)) run_custom("text", t);
        }
    }
}
