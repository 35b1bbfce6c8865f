// P02: the value parsed from a document says what the document says.
#define PBT_IMPLEMENT
#include "mj.hpp"

#include <deque>

using namespace model;

const char* const pbt::property_id = "P02";

// The parsed text against the expected tree
static void check_value(const std::string& text, const V& want)
{
    mj::Exact buf(text);
    const std::optional<json::value> r = json::parse(buf.view());
    PBT_CHECK(r, "a valid document is rejected: " << pbt::printable(text));
    const V got = mj::to_model(*r);
    PBT_CHECK(got == want, "got " << mj::show(got) << " for " << pbt::printable(text));
}

static void check_text(const std::string& text)
{
    const std::optional<V> want = parse(text, false);
    if (!want) return;
    check_value(text, *want);
}

// Strings and keys are observed one by one as well
static void check_tree(const json::value& j, const V& v)
{
    switch (v.k) {
    case Null: PBT_CHECK(j.is_null() && !j.is_boolean() && !j.is_string()); break;
    case Bool: PBT_CHECK(j.is_boolean() && j.as_boolean() == v.b); break;
    case Num: PBT_CHECK(j.is_number() && j.to_string() == v.s, "number " << v.s << " became " << j.to_string()); break;
    case Str:
        PBT_CHECK(j.is_string() && j.as_string() == v.s, "string " << pbt::printable(v.s));
        PBT_CHECK(j.as_string_view() == v.s && j.as_string().size() == v.s.size());
        break;
    case Arr:
        PBT_CHECK(j.is_array() && j.as_array().size() == v.a.size());
        for (size_t i = 0; i < v.a.size(); ++i) check_tree(j.at(i), v.a[i]);
        break;
    default: {
        PBT_CHECK(j.is_object() && j.as_object().size() == v.o.size());
        auto it = v.o.begin();
        for (const auto& [k, x] : j.as_object()) {
            PBT_CHECK(k == it->first, "member " << pbt::printable(it->first) << " became " << pbt::printable(k));
            PBT_CHECK(&j.at(it->first) == &x, "member " << pbt::printable(it->first));
            check_tree(x, it->second);
            ++it;
        }
    }
    }
}

void pbt::property(Source& s)
{
    Style st = gen_style(s, false);
    V v = gen_root(s, 60, 6);
    // sometimes something long, wide or deep
    if (s.chance(4)) {
        V w = V::arr();
        for (size_t n = s.below(400); n > 0; --n) w.a.push_back(s.flip() ? V::num(gen_number(s)) : V::str(gen_string(s, 2)));
        v = V::obj({ { "wide", w }, { gen_key(s), v } });
    }
    if (s.chance(4)) {
        std::string big = gen_string(s, 3);
        while (big.size() < 3000 && !big.empty()) big += big;
        v = V::arr({ V::str(big), v });
    }
    if (s.chance(2)) {
        for (size_t n = s.below(500); n > 0; --n) v = V::arr({ v });
    }
    const std::string text = render_doc(s, st, v);
    pbt::note("text", text);
    if (st.escapes) pbt::label("with escapes");
    pbt::label("nesting " + std::string(depth_of(v) > 20 ? "> 20" : depth_of(v) > 4 ? "5-20" : "1-4"));
    pbt::label("bytes " + std::string(text.size() > 1000 ? "> 1000" : text.size() > 100 ? "101-1000" : "1-100"));
    if (count_nodes(v) >= 3 && (st.escapes || depth_of(v) > 2)) {
        pbt::nontrivial(hash_bytes(text));
        if (s.size() > 50 && text.size() < 250) pbt::sample(text);
    }
    check_value(text, v);

    const std::optional<json::value> r = json::parse(text);
    PBT_CHECK(r, "a valid document is rejected");
    check_tree(*r, v);
    PBT_CHECK(mj::to_model(*json::parse(std::vector<char>(text.begin(), text.end()))) == v, "vector");
    PBT_CHECK(mj::to_model(*json::parse(std::deque<char>(text.begin(), text.end()))) == v, "deque");
    PBT_CHECK(mj::to_model(*json::parsec(text)) == v, "with comments enabled");
    const json::value lit = json::literals::operator""_json(text.data(), text.size());
    PBT_CHECK(mj::to_model(lit) == v, "literal");
    if (v.k == Arr) PBT_CHECK(mj::to_model(json::literals::operator""_jarray(text.data(), text.size())) == v, "array literal");
    else PBT_CHECK(mj::to_model(json::literals::operator""_jobject(text.data(), text.size())) == v, "object literal");
}

void pbt::custom(const std::string&, const std::string& payload)
{
    pbt::nontrivial(hash_bytes(payload));
    check_text(payload);
}

static uint64_t g_index = 0;
static void put(const std::string& text)
{
    if (pbt::mine(g_index++)) pbt::run_custom("text", text);
}

void pbt::directed()
{
    char b[64];
    // every code point, as one or two \u escapes
    for (unsigned cp = 0; cp < 0x10000; ++cp) {
        if (cp >= 0xd800 && cp < 0xe000) continue;
        snprintf(b, sizeof b, cp & 1 ? "[\"\\u%04x\"]" : "[\"x\\u%04Xy\"]", cp);
        put(b);
    }
    for (unsigned cp = 0x10000; cp < 0x110000; cp += g_tier_thorough ? 1 : 3) {
        snprintf(b, sizeof b, "[\"\\u%04x\\u%04X\"]", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
        put(b);
    }
    for (unsigned hi = 0xd800; hi < 0xdc00; ++hi) {
        for (unsigned lo : { 0xdc00u, 0xdc01u, 0xdfffu }) {
            snprintf(b, sizeof b, "[\"\\u%04X\\u%04x\"]", hi, lo);
            put(b);
        }
    }
    // every escape at every place of strings of every length around the packed widths, as value and as key
    const std::vector<std::string> escapes = { "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0000", "\\u001f", "\\u0022", "\\u005c", "\\u00e9", "\\uFFFF", "\\ud83d\\ude00", "\xc3\xa9", "\xff", "\x7f", "\x20" };
    const size_t max = g_tier_thorough ? 140 : 70;
    for (size_t n = 0; n <= max; ++n) {
        for (size_t p = 0; p <= n; ++p) {
            for (auto& e : escapes) {
                const std::string a(p, 'a'), z(n - p, 'z');
                put("[\"" + a + e + z + "\"]");
                if (n % 7 == 3) put("{\"" + a + e + z + "\":[\"" + z + e + "\"]}");
            }
        }
    }
    for (size_t n = 0; n <= 40; ++n) {
        for (size_t p = 0; p <= n; ++p) {
            for (auto& e : escapes) put("[\"" + e + std::string(p, 'b') + e + std::string(n - p, 'c') + e + "\"]");
        }
    }
    // numbers keep their text, whatever follows
    const std::string digits[] = { "0", "1", "10", "907", "12345678901234567890", "000"  };
    for (const char* sign : { "", "-" }) {
        for (auto& i : digits) {
            for (const char* f : { "", ".0", ".00", ".5", ".1234567890123456789012345", ".50" }) {
                for (const char* e : { "", "e0", "E0", "e+0", "E-0", "e10", "E+010", "e-007", "E400" }) {
                    for (const char* frame : { "[@]", "[@,1]", "[@ ]", "{\"n\":@}", "{\"n\":@,\"m\":@}", "[[@],@\n]" }) {
                        std::string t;
                        for (const char* c = frame; *c; ++c) t += *c == '@' ? std::string(sign) + i + f + e : std::string(1, *c);
                        put(t);
                    }
                }
            }
        }
    }
    // depth and width
    for (size_t n : { 1, 2, 10, 100, 1000 }) {
        put(std::string(n, '[') + std::string(n, ']'));
        std::string t, c;
        for (size_t i = 0; i < n; ++i) t += "{\"k\":", c += "}";
        put(t + "[]" + c);
        std::string w = "[";
        for (size_t i = 0; i < n * 10; ++i) w += std::to_string(i) + (i + 1 < n * 10 ? "," : "]");
        put(w);
        std::string o = "{";
        for (size_t i = 0; i < n; ++i) o += "\"" + std::to_string((i * 7919) % 100003) + "\":" + std::to_string(i) + (i + 1 < n ? "," : "}");
        put(o);
    }
}
