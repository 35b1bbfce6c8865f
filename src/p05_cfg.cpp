// One configuration of the library under a name of its own (compiled with -Djson=json_CFG).
#include "json.hpp"

#include <array>
#include <deque>
#include <fstream>
#include <sstream>

#include <unistd.h>

#include "model.hpp"
#include "p05.hpp"

using model::V;

static V tree(const json::value& v)
{
    switch (v.type()) {
    case json::value::value_type::null: return V::null();
    case json::value::value_type::boolean: return V::boolean(v.as_boolean());
    case json::value::value_type::number: return V::num(v.to_string());
    case json::value::value_type::string: return V::str(v.as_string());
    case json::value::value_type::array: {
        V r = V::arr();
        for (const json::value& x : v.as_array()) r.a.push_back(tree(x));
        return r;
    }
    case json::value::value_type::object: {
        V r = V::obj();
        for (const auto& [k, x] : v.as_object()) r.o.emplace(k, tree(x));
        return r;
    }
    default: pbt::fail("a value of no type");
    }
}

static bool give(const std::optional<json::value>& r, std::string& out)
{
    if (!r) return false;
    out = model::dump(tree(*r));
    return true;
}

template <typename C>
static std::optional<json::value> go(const C& c, bool jsonc)
{
    return jsonc ? json::parsec(c) : json::parse(c);
}

// ---- the ways a text can come
static bool exact_view(const std::string& t, bool c, uint64_t, std::string& out)
{
    char* p = static_cast<char*>(malloc(t.size() + !t.size()));
    memcpy(p, t.data(), t.size());
    const auto r = go(std::string_view(p, t.size()), c);
    free(p);
    return give(r, out);
}
// in the middle of other bytes, at any alignment
static bool inner_view(const std::string& t, bool c, uint64_t junk, std::string& out)
{
    static const char fill[] = { '"', '\\', ']', '}', '/', '*', ' ', '0', 'a', '\n', '\x01', '\xff', ',', '[' };
    const size_t offset = junk % 64;
    std::string buf(64 + offset, fill[junk / 64 % sizeof fill]);
    buf += t;
    buf.append(70, fill[junk / 1024 % sizeof fill]);
    char* raw = static_cast<char*>(aligned_alloc(64, (buf.size() + 63) / 64 * 64));
    memcpy(raw, buf.data(), buf.size());
    const auto r = go(std::string_view(raw + 64 + offset, t.size()), c);
    free(raw);
    return give(r, out);
}
static bool as_string(const std::string& t, bool c, uint64_t, std::string& out)
{
    return give(go(t, c), out);
}
static bool as_pointer(const std::string& t, bool c, uint64_t, std::string& out)
{
    if (t.find('\0') != std::string::npos) return give(go(t, c), out);
    return give(c ? json::parsec(t.c_str()) : json::parse(t.c_str()), out);
}
static bool as_vector(const std::string& t, bool c, uint64_t, std::string& out)
{
    return give(go(std::vector<char>(t.begin(), t.end()), c), out);
}
static bool as_uvector(const std::string& t, bool c, uint64_t, std::string& out)
{
    return give(go(std::vector<unsigned char>(t.begin(), t.end()), c), out);
}
static bool as_svector(const std::string& t, bool c, uint64_t, std::string& out)
{
    return give(go(std::vector<signed char>(t.begin(), t.end()), c), out);
}
static bool as_deque(const std::string& t, bool c, uint64_t junk, std::string& out)
{
    std::deque<char> d(junk % 512, 'x');
    for (char ch : t) d.push_back(ch);
    for (size_t i = junk % 512; i > 0; --i) d.pop_front();
    return give(go(d, c), out);
}
// blocks of 3 bytes with random access iterators
struct Segmented
{
    std::vector<std::array<char, 3>> blocks;
    size_t n = 0;
    struct const_iterator
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char*;
        using reference = const char&;
        const Segmented* s = nullptr;
        std::ptrdiff_t i = 0;
        reference operator*() const
        {
            if (i < 0 || static_cast<size_t>(i) >= s->n) pbt::fail("an iterator outside of its container was read");
            return s->blocks[i / 3][i % 3];
        }
        pointer operator->() const { return &**this; }
        reference operator[](difference_type k) const { return *(*this + k); }
        const_iterator& operator++() { return ++i, *this; }
        const_iterator operator++(int) { auto r = *this; ++i; return r; }
        const_iterator& operator--() { return --i, *this; }
        const_iterator operator--(int) { auto r = *this; --i; return r; }
        const_iterator& operator+=(difference_type k) { return i += k, *this; }
        const_iterator& operator-=(difference_type k) { return i -= k, *this; }
        const_iterator operator+(difference_type k) const { return { s, i + k }; }
        const_iterator operator-(difference_type k) const { return { s, i - k }; }
        difference_type operator-(const const_iterator& o) const { return i - o.i; }
        bool operator==(const const_iterator& o) const { return i == o.i; }
        bool operator!=(const const_iterator& o) const { return i != o.i; }
        bool operator<(const const_iterator& o) const { return i < o.i; }
        bool operator>(const const_iterator& o) const { return i > o.i; }
        bool operator<=(const const_iterator& o) const { return i <= o.i; }
        bool operator>=(const const_iterator& o) const { return i >= o.i; }
    };
    using iterator = const_iterator;
    using value_type = char;
    using size_type = size_t;
    const_iterator begin() const { return { this, 0 }; }
    const_iterator end() const { return { this, static_cast<std::ptrdiff_t>(n) }; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
};
static bool as_segmented(const std::string& t, bool c, uint64_t, std::string& out)
{
    Segmented s;
    s.n = t.size();
    s.blocks.resize(t.size() / 3 + 1);
    for (size_t i = 0; i < t.size(); ++i) s.blocks[i / 3][i % 3] = t[i];
    return give(go(s, c), out);
}
static bool as_array(const std::string& t, bool c, uint64_t, std::string& out)
{
    if (t.size() > 96) {
        if (t.size() > 512) return give(go(t, c), out);
        auto a = std::make_unique<std::array<char, 512>>();
        a->fill(' ');
        std::copy(t.begin(), t.end(), a->begin());
        return give(go(*a, c), out);
    }
    std::array<char, 96> a;
    a.fill('\n');
    std::copy(t.begin(), t.end(), a.begin());
    return give(go(a, c), out);
}
static bool as_stream(const std::string& t, bool c, uint64_t, std::string& out)
{
    std::istringstream in(t);
    return give(json::parse(in, false, c), out);
}
static bool as_file(const std::string& t, bool c, uint64_t junk, std::string& out)
{
    const std::string name = "p05-" + std::to_string(getpid()) + ".json";
    {
        std::ofstream f(name, std::ios::binary);
        f.write(t.data(), static_cast<std::streamsize>(t.size()));
    }
    std::optional<json::value> r;
    if (junk % 3 == 0) r = json::open(name, false, c);
    else if (junk % 3 == 1) r = json::open(std::filesystem::path(name), false, c);
    else {
        std::ifstream f(name, std::ios::binary);
        r = json::parse(f, false, c);
    }
    ::unlink(name.c_str());
    return give(r, out);
}
static bool as_literal(const std::string& t, bool c, uint64_t, std::string& out)
{
    if (c) return give(json::parsec(t), out);
    const json::value v = json::literals::operator""_jvalue(t.data(), t.size());
    if (v.is_null()) return false;
    return give(v, out);
}
#ifdef CFG_WIDTH_4
static bool width_4(const std::string& t, bool c, uint64_t junk, std::string& out)
{
    const std::string buf = std::string(junk % 16, '"') + t;
    const std::string_view v = std::string_view(buf).substr(junk % 16);
    return give(c ? json::parser<true, std::string_view, json::_packed_bytes::packed_bytes_trait_uint32>::parse(v) : json::parser<false, std::string_view, json::_packed_bytes::packed_bytes_trait_uint32>::parse(v), out);
}
#endif

#define P05_CAT2(a, b) a##b
#define P05_CAT(a, b) P05_CAT2(a, b)
const std::vector<p05::Entry>& P05_CAT(entries_, json)()
{
#ifdef CFG_WIDTH_4
    static const std::vector<p05::Entry> e = { { "4 byte steps", width_4, false } };
#else
    static const std::vector<p05::Entry> e = {
        { "string_view", exact_view, false }, { "inner string_view", inner_view, false }, { "string", as_string, false }, { "vector<char>", as_vector, false },
        { "deque", as_deque, true }, { "segmented container", as_segmented, false }, { "char pointer", as_pointer, true }, { "vector<unsigned char>", as_uvector, true },
        { "vector<signed char>", as_svector, true }, { "array", as_array, true }, { "stream", as_stream, true }, { "literal", as_literal, true }, { "file", as_file, true } };
#endif
    return e;
}
