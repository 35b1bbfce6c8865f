// Reference model of JSON documents: values, a parser, a printer, and generators.
// Nothing here uses meojson.
#pragma once

#include <climits>
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "pbt.hpp"

namespace model
{
enum Kind { Null, Bool, Num, Str, Arr, Obj };

struct V
{
    Kind k = Null;
    bool b = false;
    std::string s; // text of a number, bytes of a string
    std::vector<V> a;
    std::map<std::string, V> o;

    static V null() { return {}; }
    static V boolean(bool x) { V v; v.k = Bool; v.b = x; return v; }
    static V num(std::string t) { V v; v.k = Num; v.s = std::move(t); return v; }
    static V str(std::string t) { V v; v.k = Str; v.s = std::move(t); return v; }
    static V arr(std::vector<V> x = {}) { V v; v.k = Arr; v.a = std::move(x); return v; }
    static V obj(std::map<std::string, V> x = {}) { V v; v.k = Obj; v.o = std::move(x); return v; }

    bool operator==(const V& r) const
    {
        if (k != r.k) return false;
        switch (k) {
        case Null: return true;
        case Bool: return b == r.b;
        case Num:
        case Str: return s == r.s;
        case Arr: return a == r.a;
        default: return o == r.o;
        }
    }
    bool operator!=(const V& r) const { return !(*this == r); }
    // "nothing inside": what may turn into a container on demand
    bool empty() const
    {
        switch (k) {
        case Null: return true;
        case Str: return s.empty();
        case Arr: return a.empty();
        case Obj: return o.empty();
        default: return false;
        }
    }
};

inline size_t count_nodes(const V& v)
{
    size_t n = 1;
    for (auto& x : v.a) n += count_nodes(x);
    for (auto& [k, x] : v.o) n += count_nodes(x);
    return n;
}
inline size_t depth_of(const V& v)
{
    size_t n = 0;
    for (auto& x : v.a) n = std::max(n, depth_of(x));
    for (auto& [k, x] : v.o) n = std::max(n, depth_of(x));
    return n + 1;
}

// ---------------------------------------------------------------- reference printer
inline void put_string(std::string& out, std::string_view s)
{
    static const char* const hex = "0123456789abcdef";
    out += '"';
    for (unsigned char c : s) {
        if (c == '"') out += "\\\"";
        else if (c == '\\') out += "\\\\";
        else if (c == '\b') out += "\\b";
        else if (c == '\f') out += "\\f";
        else if (c == '\n') out += "\\n";
        else if (c == '\r') out += "\\r";
        else if (c == '\t') out += "\\t";
        else if (c < 0x20) {
            out += "\\u00";
            out += hex[c >> 4];
            out += hex[c & 15];
        }
        else out += static_cast<char>(c);
    }
    out += '"';
}

inline void dump(std::string& out, const V& v)
{
    switch (v.k) {
    case Null: out += "null"; break;
    case Bool: out += v.b ? "true" : "false"; break;
    case Num: out += v.s; break;
    case Str: put_string(out, v.s); break;
    case Arr: {
        out += '[';
        bool first = true;
        for (auto& x : v.a) {
            if (!first) out += ',';
            first = false;
            dump(out, x);
        }
        out += ']';
        break;
    }
    case Obj: {
        out += '{';
        bool first = true;
        for (auto& [k, x] : v.o) {
            if (!first) out += ',';
            first = false;
            put_string(out, k);
            out += ':';
            dump(out, x);
        }
        out += '}';
        break;
    }
    }
}
inline std::string dump(const V& v)
{
    std::string s;
    dump(s, v);
    return s;
}

inline void format(std::string& out, const V& v, size_t indent, size_t level)
{
    const bool arr = v.k == Arr;
    if (!arr && v.k != Obj) {
        dump(out, v);
        return;
    }
    out += arr ? "[\n" : "{\n";
    size_t i = 0, n = arr ? v.a.size() : v.o.size();
    auto it = v.o.begin();
    for (; i < n; ++i) {
        out.append(indent * (level + 1), ' ');
        if (arr) {
            format(out, v.a[i], indent, level + 1);
        }
        else {
            put_string(out, it->first);
            out += ": ";
            format(out, it->second, indent, level + 1);
            ++it;
        }
        if (i + 1 < n) out += ',';
        out += '\n';
    }
    out.append(indent * level, ' ');
    out += arr ? ']' : '}';
}
inline std::string format(const V& v, size_t indent)
{
    std::string s;
    format(s, v, indent, 0);
    return s;
}

// ---------------------------------------------------------------- reference parser
// RFC 8259 with an object or array at the root, no duplicate keys, no check of the UTF-8 validity of
// string bytes. With jsonc: comments wherever whitespace may be, and one comma after the last element.
// A NUL byte where whitespace may be ends the text: nothing after it is looked at.
class Parser
{
public:
    static std::optional<V> parse(std::string_view text, bool jsonc)
    {
        Parser p { text, jsonc };
        if (!p.blank()) return std::nullopt;
        if (!p.have() || (p.cur() != '[' && p.cur() != '{')) return std::nullopt;
        V v;
        if (!p.value(v)) return std::nullopt;
        if (!p.blank()) return std::nullopt;
        if (p.have() && p.cur() != '\0') return std::nullopt;
        return v;
    }

private:
    Parser(std::string_view t, bool c) : _t(t), _c(c) {}
    std::string_view _t;
    bool _c;
    size_t _i = 0;

    bool have() const { return _i < _t.size(); }
    char cur() const { return _t[_i]; }
    bool eat(char c)
    {
        if (have() && cur() == c) {
            ++_i;
            return true;
        }
        return false;
    }
    // false: a malformed comment
    bool blank()
    {
        for (;;) {
            while (have() && (cur() == ' ' || cur() == '\t' || cur() == '\n' || cur() == '\r')) ++_i;
            if (!_c || !have() || cur() != '/') return true;
            if (_i + 1 >= _t.size()) return false;
            if (_t[_i + 1] == '/') {
                const size_t e = _t.find('\n', _i);
                _i = e == std::string_view::npos ? _t.size() : e + 1;
            }
            else if (_t[_i + 1] == '*') {
                const size_t e = _t.find("*/", _i + 2);
                if (e == std::string_view::npos) return false;
                _i = e + 2;
            }
            else return false;
        }
    }
    bool word(std::string_view w)
    {
        if (_t.substr(_i, w.size()) != w) return false;
        _i += w.size();
        return true;
    }
    static bool digit(char c) { return c >= '0' && c <= '9'; }
    bool digits()
    {
        const size_t b = _i;
        while (have() && digit(cur())) ++_i;
        return _i != b;
    }
    bool number(V& v)
    {
        const size_t b = _i;
        eat('-');
        if (eat('0')) {
            if (have() && digit(cur())) return false;
        }
        else if (!digits()) return false;
        if (eat('.') && !digits()) return false;
        if (have() && (cur() == 'e' || cur() == 'E')) {
            ++_i;
            if (!eat('+')) eat('-');
            if (!digits()) return false;
        }
        v = V::num(std::string(_t.substr(b, _i - b)));
        return true;
    }
    bool hex4(unsigned& cp)
    {
        if (_i + 4 > _t.size()) return false;
        cp = 0;
        for (int k = 0; k < 4; ++k) {
            const char c = _t[_i + k];
            unsigned d;
            if (c >= '0' && c <= '9') d = c - '0';
            else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
            else return false;
            cp = cp * 16 + d;
        }
        _i += 4;
        return true;
    }

public:
    static void utf8(std::string& s, unsigned cp)
    {
        auto put = [&](unsigned x) { s += static_cast<char>(x); };
        if (cp < 0x80) put(cp);
        else if (cp < 0x800) { put(0xC0 | cp >> 6); put(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { put(0xE0 | cp >> 12); put(0x80 | (cp >> 6 & 63)); put(0x80 | (cp & 63)); }
        else { put(0xF0 | cp >> 18); put(0x80 | (cp >> 12 & 63)); put(0x80 | (cp >> 6 & 63)); put(0x80 | (cp & 63)); }
    }

private:
    bool string(std::string& s)
    {
        if (!eat('"')) return false;
        for (;;) {
            if (!have()) return false;
            const char c = _t[_i++];
            if (c == '"') return true;
            if (static_cast<unsigned char>(c) < 0x20) return false;
            if (c != '\\') {
                s += c;
                continue;
            }
            if (!have()) return false;
            switch (_t[_i++]) {
            case '"': s += '"'; break;
            case '\\': s += '\\'; break;
            case '/': s += '/'; break;
            case 'b': s += '\b'; break;
            case 'f': s += '\f'; break;
            case 'n': s += '\n'; break;
            case 'r': s += '\r'; break;
            case 't': s += '\t'; break;
            case 'u': {
                unsigned cp;
                if (!hex4(cp)) return false;
                if (cp >= 0xDC00 && cp <= 0xDFFF) return false;
                if (cp >= 0xD800 && cp <= 0xDBFF) {
                    unsigned lo;
                    if (!eat('\\') || !eat('u') || !hex4(lo) || lo < 0xDC00 || lo > 0xDFFF) return false;
                    cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
                }
                utf8(s, cp);
                break;
            }
            default: return false;
            }
        }
    }
    bool value(V& v)
    {
        if (!have()) return false;
        switch (cur()) {
        case 'n': v = V::null(); return word("null");
        case 't': v = V::boolean(true); return word("true");
        case 'f': v = V::boolean(false); return word("false");
        case '"': v = V::str({}); return string(v.s);
        case '[': {
            ++_i;
            v = V::arr();
            for (bool first = true;; first = false) {
                if (!blank()) return false;
                if ((first || _c) && eat(']')) return true;
                v.a.emplace_back();
                if (!value(v.a.back()) || !blank()) return false;
                if (eat(',')) continue;
                return eat(']');
            }
        }
        case '{': {
            ++_i;
            v = V::obj();
            for (bool first = true;; first = false) {
                if (!blank()) return false;
                if ((first || _c) && eat('}')) return true;
                std::string key;
                if (!string(key) || !blank() || !eat(':') || !blank()) return false;
                V x;
                if (!value(x) || !blank()) return false;
                if (!v.o.emplace(std::move(key), std::move(x)).second) return false;
                if (eat(',')) continue;
                return eat('}');
            }
        }
        default: return number(v);
        }
    }
};

inline std::optional<V> parse(std::string_view t, bool jsonc)
{
    return Parser::parse(t, jsonc);
}

// ---------------------------------------------------------------- generators
using pbt::Source;

inline std::string gen_bytes_of(Source& s, std::string_view alphabet, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i) r += alphabet[s.below(alphabet.size())];
    return r;
}

// Lengths around the widths of packed loads
inline size_t gen_span(Source& s)
{
    static const int edges[] = { 0, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 127, 128, 129 };
    switch (s.weighted({ 5, 3, 1 })) {
    case 0: return s.below(7);
    case 1: return static_cast<size_t>(s.pick(edges));
    default: return s.below(140);
    }
}

inline std::string gen_code_point(Source& s)
{
    std::string r;
    switch (s.weighted({ 3, 2, 2, 2, 2 })) {
    case 0: Parser::utf8(r, static_cast<unsigned>(s.range(0x20, 0x7f))); break;
    case 1: Parser::utf8(r, static_cast<unsigned>(s.range(0x80, 0x7ff))); break;
    case 2: Parser::utf8(r, static_cast<unsigned>(s.range(0x800, 0xd7ff))); break;
    case 3: Parser::utf8(r, static_cast<unsigned>(s.range(0xe000, 0xffff))); break;
    default: Parser::utf8(r, static_cast<unsigned>(s.range(0x10000, 0x10ffff))); break;
    }
    return r;
}

// Bytes of a string value: any bytes at all, biased to what the escaping and the packed scan treat specially.
inline std::string gen_string(Source& s, size_t max_parts = 4)
{
    std::string r;
    for (size_t parts = s.below(max_parts + 1); parts > 0; --parts) {
        switch (s.weighted({ 5, 3, 3, 2, 2, 1, 1 })) {
        case 0: r += gen_bytes_of(s, "abcdefgXYZ 019_-./", gen_span(s)); break;
        case 1: r += s.pick({ '"', '\\', '/', '\b', '\f', '\n', '\r', '\t' } ); break;
        case 2: r += static_cast<char>(s.below(0x20)); break;
        case 3: for (size_t n = s.below(6); n > 0; --n) r += gen_code_point(s); break;
        case 4: r += static_cast<char>(s.below(256)); break;
        case 5: r += s.pick({ '\x7f', '\x80', '\x81', '\x9f', '\xa0', '\xa2', '\xdc', '\xff', '\x1f', '\x20', '\x21', '\x22', '\x23', '\x5b', '\x5d', '\0' }); break;
        default: r += s.pick({ "\\u0041", "\\", "\\\"", "//", "/*", "*/", "null", "true", "\xef\xbb\xbf", "\xe2\x80\xa8", "</script>", "\xed\xa0\x80", "\xc0\x80" }); break;
        }
    }
    return r;
}

inline std::string gen_key(Source& s)
{
    switch (s.weighted({ 6, 2, 1 })) {
    case 0: return s.pick({ "a", "b", "c", "key", "k0", "k1", "name", "x", "y", "" });
    case 1: return gen_bytes_of(s, "abcdef_ABC", 1 + s.below(20));
    default: return gen_string(s, 2);
    }
}

inline std::string gen_digits(Source& s, size_t n)
{
    return gen_bytes_of(s, "0123456789", n);
}

// The text of a number by the JSON grammar.
inline std::string gen_number(Source& s)
{
    switch (s.weighted({ 6, 3, 3, 2, 2 })) {
    case 0: return std::to_string(s.range(-20, 120));
    case 1: {
        static const char* const edges[] = {
            "0", "-0", "1", "-1", "127", "128", "255", "256", "32767", "32768", "65535", "65536",
            "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649",
            "4294967294", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993",
            "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551615",
            "18446744073709551616", "99999999999999999999999", "0.0", "-0.0", "1.0", "1e0", "1E0", "0e0", "0e-0",
            "1e2", "1E+2", "1e-2", "-1.5e3", "3.14", "0.1", "0.5", "123.456", "2.2250738585072014e-308", "2.2250738585072011e-308",
            "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1e-400", "1e400", "-1e400", "1.7976931348623157e308", "1.7976931348623159e308",
            "3.4028234e38", "3.4028236e38", "1e39", "1e-45", "1.17549435e-38", "1e-50", "1.18973149535723176502e+4932", "1e4933", "3.6e-4951", "1e-5000",
            "8.5", "10000000000000000000000000000000000000000", "0.30000000000000004", "1e22", "1e23" };
        return s.pick(edges);
    }
    case 2: { // integers of any length
        std::string r = s.flip() ? "-" : "";
        const size_t n = 1 + s.below(22);
        r += static_cast<char>('1' + s.below(9));
        return r + gen_digits(s, n - 1);
    }
    default: {
        std::string r = s.flip() ? "-" : "";
        if (s.chance(30)) r += "0";
        else {
            r += static_cast<char>('1' + s.below(9));
            r += gen_digits(s, s.below(6));
        }
        if (s.chance(60)) r += "." + gen_digits(s, 1 + s.below(s.chance(15) ? 30 : 5));
        if (s.chance(40)) {
            r += s.pick({ 'e', 'E' });
            r += s.pick({ "", "+", "-" });
            r += gen_digits(s, 1 + s.below(s.chance(10) ? 6 : 2));
        }
        return r;
    }
    }
}

struct Limits
{
    size_t depth = 4;
    size_t nodes = 40;
};

inline V gen_value(Source& s, Limits& lim, size_t depth, bool container = false)
{
    if (lim.nodes > 0) --lim.nodes;
    const bool deep = depth < lim.depth && lim.nodes > 0;
    const size_t c = container ? 5 + s.below(2) : deep ? s.weighted({ 2, 2, 4, 5, 0, 3, 4 }) : s.weighted({ 2, 2, 4, 5, 0, 1, 1 });
    switch (c) {
    case 0: return V::null();
    case 1: return V::boolean(s.flip());
    case 2: return V::num(gen_number(s));
    case 3: return V::str(gen_string(s));
    case 5: {
        V v = V::arr();
        if (!deep) return v;
        while (lim.nodes > 0 && s.more(3)) v.a.push_back(gen_value(s, lim, depth + 1));
        return v;
    }
    default: {
        V v = V::obj();
        if (!deep) return v;
        while (lim.nodes > 0 && s.more(3)) {
            std::string k = gen_key(s);
            v.o[k] = gen_value(s, lim, depth + 1);
        }
        return v;
    }
    }
}
// Something large made of few choices: a long string, or a wide or deep container with v in it
inline V gen_bulk(Source& s, V v)
{
    static const int lengths[] = { 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 100000 };
    static const int widths[] = { 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1000, 1025, 2000, 5000 };
    switch (s.below(4)) {
    case 0: {
        const std::string part = gen_string(s, 2) + gen_bytes_of(s, "abc", 1 + s.below(9));
        std::string r;
        for (const size_t n = static_cast<size_t>(s.pick(lengths)); r.size() < n;) r += part.substr(0, n - r.size());
        if (s.flip()) r.insert(s.below(r.size() + 1), 1, s.pick({ '"', '\\', '\n', '\x1f', '\0', '\x7f', '\xff' }));
        if (s.chance(30)) return V::obj({ { r, v } });
        return s.flip() ? V::arr({ V::str(r), v }) : V::arr({ v, V::str(r) });
    }
    case 1: {
        std::vector<V> parts;
        for (size_t n = 1 + s.below(3); n > 0; --n) parts.push_back(s.flip() ? V::num(gen_number(s)) : V::str(gen_string(s, 1)));
        V r = V::arr();
        const size_t n = static_cast<size_t>(s.pick(widths)), at = s.below(n);
        for (size_t i = 0; i < n; ++i) r.a.push_back(i == at ? v : parts[i % parts.size()]);
        return r;
    }
    case 2: {
        const V part = s.flip() ? V::num(gen_number(s)) : V::str(gen_string(s, 1));
        V r = V::obj();
        const size_t n = static_cast<size_t>(s.pick(widths)), at = s.below(n);
        const std::string prefix = s.pick({ "k", "", "key with blanks ", "\"" });
        for (size_t i = 0; i < n; ++i) r.o[prefix + std::to_string(i)] = i == at ? v : part;
        return r;
    }
    default:
        for (size_t n = s.below(300), how = s.below(3); n > 0; --n) v = how == 0 || (how == 1 && n % 2) ? V::arr({ v }) : V::obj({ { "d", v } });
        return v.k == Arr || v.k == Obj ? v : V::arr({ v });
    }
}
// any value
inline V gen_any(Source& s, size_t nodes = 40, size_t depth = 5)
{
    Limits l { depth, 1 + nodes * (s.size() + 20) / 120 };
    V v = gen_value(s, l, 0);
    return nodes >= 20 && s.chance(1) ? gen_bulk(s, v) : v;
}
// an array or an object
inline V gen_root(Source& s, size_t nodes = 40, size_t depth = 5)
{
    Limits l { depth, 1 + nodes * (s.size() + 20) / 120 };
    V v = gen_value(s, l, 0, true);
    // sometimes deep
    if (s.chance(3)) {
        for (size_t n = s.below(60); n > 0; --n) v = s.flip() ? V::arr({ v }) : V::obj({ { gen_key(s), v } });
    }
    if (nodes >= 20 && s.chance(1)) v = gen_bulk(s, std::move(v));
    return v;
}

// ---------------------------------------------------------------- documents
struct Style
{
    bool jsonc = false;     // comments and trailing commas
    unsigned space = 20;    // percentage of places with extra whitespace
    unsigned escape = 20;   // percentage of characters written as escapes though they need not be
    size_t extensions = 0;  // counts the comments and trailing commas written
    size_t escapes = 0;
};

inline std::string gen_comment(Source& s)
{
    // what a comment may hold, provided it doesn't end it
    static const std::vector<std::string> parts = { "c", " x ", "\"", "\\", "'", "{", "]", ",", "/", "*", "//", "/*", "**", "* /", "\r", "\t", "\xc3\xa9", "null", "\\\"", "\xff", "/ *", "\x01" };
    std::string body;
    while (s.more(3)) body += s.pick(parts);
    if (s.chance(15)) body += gen_bytes_of(s, "abc*/ \"\n", gen_span(s));
    if (s.flip()) {
        for (char& c : body) if (c == '\n') c = ' ';
        return "//" + body + "\n";
    }
    if (s.chance(20)) body += "\n";
    if (s.chance(10)) body += std::string(1, '\0');
    if (s.chance(20)) body += "*";
    size_t p;
    while ((p = body.find("*/")) != std::string::npos) body.erase(p + 1, 1);
    return "/*" + body + "*/";
}

inline void gen_blank(Source& s, Style& st, std::string& out)
{
    if (!s.chance(st.space)) return;
    static const char ws[] = { ' ', '\n', '\t', '\r' };
    for (;;) {
        if (st.jsonc && s.chance(35)) {
            out += gen_comment(s);
            ++st.extensions;
        }
        else if (s.chance(5)) out.append(gen_span(s), s.pick(ws));
        else out += s.pick(ws);
        if (!s.more(1)) return;
    }
}

inline void put_hex4(Source& s, std::string& out, unsigned cp)
{
    char b[8];
    snprintf(b, sizeof b, "%04x", cp);
    for (char* p = b; *p; ++p) {
        if (*p >= 'a' && s.flip()) *p = static_cast<char>(*p - 32);
    }
    out += "\\u";
    out += b;
}

// One of the texts of a string
inline void render_string(Source& s, Style& st, std::string& out, const std::string& v)
{
    out += '"';
    const bool plain = s.chance(50);
    for (size_t i = 0; i < v.size();) {
        const unsigned char c = static_cast<unsigned char>(v[i]);
        const char* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
        const bool must = c < 0x20 || c == '"' || c == '\\';
        if (must || (!plain && s.chance(st.escape))) {
            // decode one well-formed code point if there is one here
            unsigned cp = c;
            size_t n = 1;
            if (c >= 0x80) {
                n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : c >= 0xC0 ? 2 : 0;
                if (n == 0 || i + n > v.size()) n = 0;
                else {
                    cp = n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
                    for (size_t k = 1; k < n; ++k) {
                        const unsigned char d = static_cast<unsigned char>(v[i + k]);
                        if ((d & 0xC0) != 0x80) { n = 0; break; }
                        cp = cp << 6 | (d & 63);
                    }
                    std::string back;
                    if (n) Parser::utf8(back, cp);
                    if (!n || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000) || back != v.substr(i, n)) n = 0;
                }
            }
            if (n) {
                if (must || n) ++st.escapes;
                if (sh && s.chance(70)) out += sh;
                else if (c == '/' && s.flip()) out += "\\/";
                else if (cp < 0x10000) put_hex4(s, out, cp);
                else {
                    put_hex4(s, out, 0xd800 + ((cp - 0x10000) >> 10));
                    put_hex4(s, out, 0xdc00 + ((cp - 0x10000) & 0x3ff));
                }
                i += n;
                continue;
            }
        }
        out += static_cast<char>(c);
        ++i;
    }
    out += '"';
}

inline void render(Source& s, Style& st, std::string& out, const V& v)
{
    switch (v.k) {
    case Arr: {
        out += '[';
        gen_blank(s, st, out);
        for (size_t i = 0; i < v.a.size(); ++i) {
            if (i) {
                out += ',';
                gen_blank(s, st, out);
            }
            render(s, st, out, v.a[i]);
            gen_blank(s, st, out);
        }
        if (st.jsonc && !v.a.empty() && s.chance(25)) {
            out += ',';
            ++st.extensions;
            gen_blank(s, st, out);
        }
        out += ']';
        break;
    }
    case Obj: {
        out += '{';
        gen_blank(s, st, out);
        bool first = true;
        // any order of the members
        std::vector<const std::pair<const std::string, V>*> ms;
        for (auto& m : v.o) ms.push_back(&m);
        for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[i - 1 - s.below(i)]);
        for (auto* m : ms) {
            if (!first) {
                out += ',';
                gen_blank(s, st, out);
            }
            first = false;
            render_string(s, st, out, m->first);
            gen_blank(s, st, out);
            out += ':';
            gen_blank(s, st, out);
            render(s, st, out, m->second);
            gen_blank(s, st, out);
        }
        if (st.jsonc && !first && s.chance(25)) {
            out += ',';
            ++st.extensions;
            gen_blank(s, st, out);
        }
        out += '}';
        break;
    }
    case Str: render_string(s, st, out, v.s); break;
    default: dump(out, v);
    }
}

inline Style gen_style(Source& s, bool jsonc)
{
    Style st;
    st.jsonc = jsonc;
    st.space = static_cast<unsigned>(s.pick({ 0, 10, 30, 60 }));
    st.escape = static_cast<unsigned>(s.pick({ 0, 5, 30, 90 }));
    return st;
}

inline std::string render_doc(Source& s, Style& st, const V& v)
{
    std::string out;
    gen_blank(s, st, out);
    render(s, st, out, v);
    gen_blank(s, st, out);
    return out;
}

inline const std::vector<std::string>& tokens()
{
    static const std::vector<std::string> t = {
        "[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"\"", "1", "0", "-", "-0", "01", "1.", ".5", "1.5", "1e", "1e5", "e", "E+", "+", ".",
        "null", "nul", "true", "false", "fals", "t", "n", " ", "\n", "\t", "\r", "\v", "\f", "\xa0", "\xef\xbb\xbf", std::string(1, '\0'), "/", "//", "/*", "*/", "*",
        "//\n", "/**/", "/* x */", "\\", "\\u", "\\u00", "\\u0041", "\\ud83d", "\\udca9", "\\ud83d\\udca9", "\\n", "\\x", "\\/", "'", "NaN", "Infinity", "-1", "#", "a", ";",
        "[]", "{}", "[1]", "{\"a\":1}", "\"a\":", "\"b\":2", ",,", "\x1f", "\x7f", "\x80", "\xff", "\"\\\"", "0x10", "1e400", "True" };
    return t;
}

// Small edits of a document.
inline std::string mutate(Source& s, std::string d, size_t edits)
{
    for (size_t e = 0; e < edits; ++e) {
        const size_t n = d.size();
        switch (s.below(9)) {
        case 0: // delete a byte
            if (n) d.erase(s.below(n), 1);
            break;
        case 1: // truncate
            d.resize(s.below(n + 1));
            break;
        case 2: // insert a token
            d.insert(s.below(n + 1), s.pick(tokens()));
            break;
        case 3: // replace a byte by a structural character
            if (n) d[s.below(n)] = s.pick({ '[', ']', '{', '}', ',', ':', '"', '\\', '/', '*', '0', '9', '-', '.', 'e', ' ', '\n' });
            break;
        case 4: // any byte
            if (n) d[s.below(n)] = static_cast<char>(s.below(256));
            break;
        case 5: // delete a range
            if (n) {
                const size_t b = s.below(n);
                d.erase(b, s.below(8) + 1);
            }
            break;
        case 6: // duplicate a range
            if (n) {
                const size_t b = s.below(n);
                const std::string part = d.substr(b, s.below(12) + 1);
                d.insert(s.below(n + 1), part);
            }
            break;
        case 7: // append
            d += s.pick(tokens());
            break;
        default: // swap two bytes
            if (n) std::swap(d[s.below(n)], d[s.below(n)]);
        }
    }
    return d;
}

inline std::string gen_token_soup(Source& s)
{
    std::string d;
    if (s.flip()) d = s.flip() ? "[" : "{";
    while (s.more(8)) d += s.pick(tokens());
    if (s.flip()) d += s.flip() ? "]" : "}";
    return d;
}

// Any text: valid documents, near misses, token soups, bytes.
enum DocClass { Valid, Mutated, Soup, Bytes };
inline std::string gen_text(Source& s, bool jsonc, DocClass& cls)
{
    const size_t c = s.weighted({ 30, 50, 15, 5 });
    cls = static_cast<DocClass>(c);
    if (c == 2) return gen_token_soup(s);
    if (c == 3) {
        std::string d;
        for (size_t n = s.length(200); n > 0; --n) d += static_cast<char>(s.below(256));
        return d;
    }
    Style st = gen_style(s, jsonc);
    const V v = gen_root(s, 20, 4);
    std::string d = render_doc(s, st, v);
    if (c == 1) d = mutate(s, std::move(d), 1 + s.below(2));
    return d;
}
} // namespace model
