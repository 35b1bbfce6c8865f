// P06: serialising and parsing back gives an equal value; the output is canonical JSON.
#define PBT_IMPLEMENT
#include "mj.hpp"

#include <sstream>

using namespace model;

const char* const pbt::property_id = "P06";

template <typename T>
static std::string stream(const T& x)
{
    std::ostringstream o;
    o << x;
    PBT_CHECK(o.good(), "the stream is not good after printing");
    return o.str();
}

// whatever the state of the stream, it gets the text, perhaps padded
template <typename T>
static void check_stream_state(pbt::Source& s, const T& x, const std::string& expected, const char* what)
{
    std::ostringstream o;
    const std::string before = s.flip() ? "before " : "";
    o << before;
    const char fill = s.pick({ ' ', '*', '0', '\n' });
    const size_t width = s.pick({ 0, 1, 5, 30, 200 });
    o.width(static_cast<long>(width));
    o.fill(fill);
    o.precision(s.pick({ 6, 0, 1, 17 }));
    static const std::ios::fmtflags flags[] = { std::ios::hex, std::ios::oct, std::ios::showbase, std::ios::showpos, std::ios::uppercase, std::ios::boolalpha, std::ios::fixed, std::ios::scientific, std::ios::left, std::ios::internal, std::ios::unitbuf, std::ios::showpoint };
    for (size_t i = s.below(4); i > 0; --i) o.setf(flags[s.below(std::size(flags))]);
    o << x;
    PBT_CHECK(o.good(), what << ": the stream is not good after printing");
    std::string got = o.str();
    PBT_CHECK(got.compare(0, before.size(), before) == 0, what << " <<: what was written before is lost: " << pbt::printable(got));
    got.erase(0, before.size());
    const std::string pad = width > expected.size() ? std::string(width - expected.size(), fill) : "";
    PBT_CHECK(got == expected || got == pad + expected || got == expected + pad,
              what << " << with width " << width << ", flags " << o.flags() << ": " << pbt::printable(got) << " instead of " << pbt::printable(expected));
}

// all printing functions of a value, array or object
template <typename T>
static void check_prints(const T& x, const std::string& compact, const V& m, const char* what)
{
    PBT_CHECK(x.to_string() == compact, what << " to_string: " << pbt::printable(x.to_string()) << " instead of " << pbt::printable(compact));
    PBT_CHECK(x.dumps() == compact, what << " dumps(): " << pbt::printable(x.dumps()) << " instead of " << pbt::printable(compact));
    PBT_CHECK(x.dumps(std::nullopt) == compact, what << " dumps(nullopt): " << pbt::printable(x.dumps(std::nullopt)));
    const std::string four = format(m, 4);
    PBT_CHECK(x.format() == four, what << " format(): " << pbt::printable(x.format()) << " instead of " << pbt::printable(four));
    PBT_CHECK(stream(x) == four, what << " <<: " << pbt::printable(stream(x)) << " instead of " << pbt::printable(four));
}

static void parse_back(const std::string& text, const json::value& v, const V& m)
{
    const std::optional<V> r = parse(text, false);
    PBT_CHECK(r, "the output is not JSON: " << pbt::printable(text));
    PBT_CHECK(*r == m, "the output says something else: " << pbt::printable(text));
    mj::Exact buf(text);
    const std::optional<json::value> back = json::parse(buf.view());
    PBT_CHECK(back, "the output is not parsed: " << pbt::printable(text));
    PBT_CHECK(*back == v && v == *back && !(*back != v), "parsing the output gives another value: " << pbt::printable(text) << " -> " << pbt::printable(back->to_string()));
    PBT_CHECK(mj::to_model(*back) == m, "parsing the output gives another tree: " << pbt::printable(text));
    const std::optional<json::value> backc = json::parsec(text);
    PBT_CHECK(backc && *backc == v, "parsing the output with comments gives another value: " << pbt::printable(text));
}

static void check_value(const json::value& v, const V& m, std::initializer_list<size_t> indents)
{
    const std::string compact = dump(m);
    check_prints(v, compact, m, "value");
    if (m.k == Arr) check_prints(v.as_array(), compact, m, "array");
    if (m.k == Obj) check_prints(v.as_object(), compact, m, "object");
    const bool root = m.k == Arr || m.k == Obj;
    if (root) parse_back(compact, v, m);
    else parse_back("[" + compact + "]", json::array { v }, V::arr({ m }));
    for (const size_t i : indents) {
        const std::string expected = format(m, i);
        const std::string f = v.format(i);
        PBT_CHECK(f == expected, "format(" << i << "): " << pbt::printable(f) << " instead of " << pbt::printable(expected));
        PBT_CHECK(v.dumps(i) == expected, "dumps(" << i << "): " << pbt::printable(v.dumps(i)) << " instead of " << pbt::printable(expected));
        if (m.k == Arr) {
            PBT_CHECK(v.as_array().format(i) == expected && v.as_array().dumps(i) == expected, "array, indent " << i << ": " << pbt::printable(v.as_array().format(i)) << " instead of " << pbt::printable(expected));
        }
        if (m.k == Obj) {
            PBT_CHECK(v.as_object().format(i) == expected && v.as_object().dumps(i) == expected, "object, indent " << i << ": " << pbt::printable(v.as_object().format(i)) << " instead of " << pbt::printable(expected));
        }
        if (root) parse_back(f, v, m);
    }
    // printing changes nothing
    PBT_CHECK(mj::to_model(v) == m, "the value changed while it was printed: " << pbt::printable(compact));
    PBT_CHECK(v.to_string() == compact, "printing again gives another text: " << pbt::printable(compact));
}

void pbt::property(Source& s)
{
    const V m = s.chance(20) ? gen_any(s, 6, 3) : gen_root(s, 25, 5);
    pbt::note("tree", dump(m));
    static const char* const kinds[] = { "null", "boolean", "number", "string", "array", "object" };
    pbt::label(kinds[m.k]);
    const std::string text = dump(m);
    if (text.find('\\') != std::string::npos || count_nodes(m) > 3) pbt::nontrivial(hash_bytes(text));
    if (text.size() < 160 && s.size() > 40 && text.find('\\') != std::string::npos) pbt::sample(text);
    const size_t indent = s.pick({ 2, 0, 1, 3, 5, 8, 16, 70 });
    const json::value v = mj::build(m);
    check_value(v, m, { 4, indent });
    check_stream_state(s, v, format(m, 4), "value");
    if (m.k == Arr) check_stream_state(s, v.as_array(), format(m, 4), "array");
    if (m.k == Obj) check_stream_state(s, v.as_object(), format(m, 4), "object");

    // the same tree from a text, from edits in another order, and from a copy
    if (m.k == Arr || m.k == Obj) {
        Style st = gen_style(s, false);
        const std::string doc = render_doc(s, st, m);
        const std::optional<json::value> p = json::parse(doc);
        PBT_CHECK(p, "a valid document was rejected: " << pbt::printable(doc));
        check_value(*p, m, { indent });
    }
    if (m.k == Obj) {
        json::object o;
        std::vector<std::string> keys;
        for (auto& [k, x] : m.o) keys.push_back(k);
        for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[s.below(i)]);
        for (auto& k : keys) o[k] = mj::build(m.o.at(k));
        PBT_CHECK(o.to_string() == text, "the order of insertion shows: " << pbt::printable(o.to_string()) << " instead of " << pbt::printable(text));
        PBT_CHECK(json::value(o) == mj::build(m), "the order of insertion changes the value: " << pbt::printable(text));
    }
    if (m.k == Str) {
        check_value(json::value(std::string_view(m.s)), m, {});
        const V c = V::str(m.s.c_str());
        check_value(json::value(m.s.c_str()), c, {});
    }
}

void pbt::custom(const std::string& kind, const std::string& payload)
{
    pbt::nontrivial(hash_bytes(payload));
    if (kind == "shape") { // depth and width
        size_t d = 0, w = 0;
        std::istringstream(payload) >> d >> w;
        V v = V::arr();
        for (size_t i = 0; i < w; ++i) v.a.push_back(V::num(std::to_string(i)));
        for (size_t i = 0; i < d; ++i) v = i % 2 ? V::obj({ { "k", v }, { "z", V::obj() } }) : V::arr({ V::arr(), v, V::null() });
        check_value(mj::build(v), v, { 0, 1, 4 });
        return;
    }
    // any bytes as a string, as a key, and as a document
    const V m = V::arr({ V::str(payload), V::obj({ { payload, V::str("x" + payload + payload) }, { payload + "\"", V::null() } }) });
    check_value(mj::build(m), m, { 0, 2 });
    const std::optional<json::value> p = json::parse(payload);
    if (p) check_value(*p, mj::to_model(*p), { 0, 3 });
}

void pbt::directed()
{
    uint64_t index = 0;
    const auto put = [&](const std::string& text) {
        if (mine(index++)) run_custom("text", text);
    };
    for (int a = 0; a < 256; ++a) {
        put(std::string(1, static_cast<char>(a)));
        for (int b = 0; b < 256; ++b) {
            if (!g_tier_thorough && a >= 0x60 && b >= 0x60) continue;
            put(std::string(1, static_cast<char>(a)) + static_cast<char>(b));
        }
    }
    // every byte at every place
    for (size_t n = 0; n < 40; ++n) {
        for (int a = 0; a < 256; ++a) {
            if (a >= 0x40 && a != '\\' && a != 0x7f && a != 0xff && a != 0x80) continue;
            std::string x(n, 'x');
            x += static_cast<char>(a);
            put(x);
            put(x + std::string(17, 'y'));
        }
    }
    // long strings in which everything is escaped
    for (size_t n : { 100, 1000, 10000, 100000 }) {
        put(std::string(n, '\x01'));
        put(std::string(n, '"'));
        put(std::string(n, 'a'));
    }
    for (size_t d : { 0, 1, 2, 10, 100 }) {
        for (size_t w : { 0, 1, 2, 100 }) {
            if (mine(index++)) run_custom("shape", std::to_string(d) + " " + std::to_string(w));
        }
    }
}
