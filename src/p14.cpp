// All ways to look something up agree and change nothing.
#define PBT_IMPLEMENT
#include "typed.hpp"

namespace pbt
{
const char* const property_id = "P14";
using model::V;
using namespace typed;

struct Key
{
    bool by_key;
    size_t pos;
    std::string key;
    std::string show() const { return by_key ? "\"" + printable(key) + "\"" : std::to_string(pos); }
};

static const V* step(const V* m, const Key& k)
{
    if (!m) return nullptr;
    if (k.by_key) {
        if (m->k != model::Obj) return nullptr;
        auto it = m->o.find(k.key);
        return it == m->o.end() ? nullptr : &it->second;
    }
    return m->k == model::Arr && k.pos < m->a.size() ? &m->a[k.pos] : nullptr;
}

template <typename E, typename F>
static bool throws(F&& f)
{
    try {
        f();
    }
    catch (const E&) {
        return true;
    }
    return false;
}

// what at() says about something absent: a type error is the library's, a missing element std's
template <typename F>
static void check_at(const V* found, const json::value* is, bool right_kind, const std::string& what, F&& at)
{
    if (found) {
        const json::value& r = at();
        PBT_CHECK(&r == is, what << " refers to something else");
    }
    else if (right_kind) PBT_CHECK(throws<std::out_of_range>(at), what << " doesn't throw std::out_of_range");
    else PBT_CHECK(throws<json::exception>(at), what << " doesn't throw json::exception");
}

template <typename T, typename C, typename K>
static void check_find(const C& c, const K& k, const V* found, const std::string& what)
{
    const std::optional<T> r = c.template find<T>(k);
    const bool fits = found && G<T>::fits(*found);
    PBT_CHECK(r.has_value() == fits, "find<T> of " << what << " is there: " << r.has_value());
    if (fits) PBT_CHECK(G<T>::same(*r, G<T>::from(*found)), "find<T> of " << what << " gives another value");
}

template <typename C, typename K>
static void check_one(const C& c, const K& k, const V* found, bool right_kind, const std::string& what)
{
    PBT_CHECK(c.contains(k) == (found != nullptr), "contains " << what);
    PBT_CHECK(c.exists(k) == (found != nullptr), "exists " << what);
    const json::value* p = c.find_value(k);
    PBT_CHECK((p != nullptr) == (found != nullptr), "find_value of " << what);
    if (p) PBT_CHECK(mj::to_model(*p) == *found, "find_value of " << what << " is " << mj::show(mj::to_model(*p)));
    check_at(found, p, right_kind, "at(" + what + ")", [&]() -> const json::value& { return c.at(k); });
    const std::optional<json::value> f = c.find(k);
    PBT_CHECK(f.has_value() == (found != nullptr) && (!f || mj::to_model(*f) == *found), "find of " << what);
    check_find<int>(c, k, found, what);
    check_find<bool>(c, k, found, what);
    check_find<std::string>(c, k, found, what);
    check_find<double>(c, k, found, what);
    check_find<std::vector<int>>(c, k, found, what);
    const auto fa = c.template find<json::array>(k);
    PBT_CHECK(fa.has_value() == (found && found->k == model::Arr), "find<array> of " << what);
    const auto fo = c.template find<json::object>(k);
    PBT_CHECK(fo.has_value() == (found && found->k == model::Obj), "find<object> of " << what);
    if (found && found->k == model::Arr) PBT_CHECK(*fa == p->as_array(), "find<array> of " << what << " is another one");
    if (found && found->k == model::Obj) PBT_CHECK(*fo == p->as_object(), "find<object> of " << what << " is another one");
}

// get with every kind of default through a path
template <typename C, typename... K>
static void check_get(const C& c, const V* found, const std::string& what, const K&... k)
{
    const auto typed_default = [&](auto def, const char* name) {
        using T = decltype(def);
        const bool fits = found && G<T>::fits(*found);
        const T r = c.get(k..., def);
        PBT_CHECK(G<T>::same(r, fits ? G<T>::from(*found) : def), "get(" << what << ", " << name << ")");
    };
    typed_default(-7, "int");
    typed_default(7.5, "double");
    typed_default(true, "true");
    typed_default(false, "false");
    typed_default(7ull, "unsigned long long");
    typed_default(std::string("default"), "string");
    typed_default(std::vector<int> { 7 }, "vector");
    {
        const std::string r = c.get(k..., "default");
        PBT_CHECK(r == (found && found->k == model::Str ? found->s : "default"), "get(" << what << ", \"default\") is " << printable(r));
        const char* const d = "other";
        const std::string r2 = c.get(k..., d);
        PBT_CHECK(r2 == (found && found->k == model::Str ? found->s : "other"), "get(" << what << ", const char*) is " << printable(r2));
    }
    {
        const json::value r = c.get(k..., json::value("default"));
        PBT_CHECK(mj::to_model(r) == (found ? *found : V::str("default")), "get(" << what << ", value) is " << printable(r.to_string()));
        const json::value lv;
        PBT_CHECK(mj::to_model(c.get(k..., lv)) == (found ? *found : V::null()), "get(" << what << ", null)");
    }
    {
        const json::array r = c.get(k..., json::array { 1 });
        PBT_CHECK(mj::to_model(json::value(r)) == (found && found->k == model::Arr ? *found : V::arr({ V::num("1") })), "get(" << what << ", array)");
        const json::object o = c.get(k..., json::object { { "d", 1 } });
        PBT_CHECK(mj::to_model(json::value(o)) == (found && found->k == model::Obj ? *found : V::obj({ { "d", V::num("1") } })), "get(" << what << ", object)");
    }
}

template <typename C, typename... K>
static void dispatch(const C& c, const V* m, const std::vector<Key>& path, size_t i, const std::string& what, const K&... k)
{
    if constexpr (sizeof...(K) < 3) {
        if (i < path.size()) {
            const V* next = step(m, path[i]);
            const std::string w = what + (i ? ", " : "") + path[i].show();
            // the first key must be of the kind the container takes
            if (path[i].by_key) {
                if constexpr (sizeof...(K) > 0 || !std::is_same_v<C, json::array>) dispatch(c, next, path, i + 1, w, k..., path[i].key);
            }
            else {
                if constexpr (sizeof...(K) > 0 || !std::is_same_v<C, json::object>) dispatch(c, next, path, i + 1, w, k..., path[i].pos);
            }
            return;
        }
    }
    if constexpr (sizeof...(K) > 0) check_get(c, m, what, k...);
}

static Key gen_query(Source& s, const V& m)
{
    Key k;
    k.by_key = m.k == model::Obj ? s.chance(85) : m.k == model::Arr ? s.chance(15) : s.flip();
    k.pos = 0;
    if (k.by_key) {
        const bool there = m.k == model::Obj && !m.o.empty() && s.chance(70);
        if (there) {
            auto it = m.o.begin();
            std::advance(it, s.below(m.o.size()));
            k.key = it->first;
            if (s.chance(25)) { // next to one
                switch (s.below(5)) {
                case 0: k.key += '\0'; break;
                case 1: if (!k.key.empty()) k.key.pop_back(); break;
                case 2: k.key += "a"; break;
                case 3: if (!k.key.empty()) k.key[0] ^= 0x20; break;
                default: k.key = " " + k.key; break;
                }
            }
        }
        else k.key = model::gen_key(s);
    }
    else {
        const size_t n = m.a.size();
        k.pos = n && s.chance(65) ? s.below(n) : s.pick<size_t>({ n, n + 1, 0, 1, size_t(-1), size_t(1) << 32, (size_t(1) << 32) + (n ? n - 1 : 0), size_t(1) << 63 });
    }
    return k;
}

static void check_iteration(const json::value& v, const V& m)
{
    PBT_CHECK(v.empty() == m.empty(), "empty() of " << mj::show(m));
    if (m.k == model::Arr) {
        const json::array& a = v.as_array();
        PBT_CHECK(a.size() == m.a.size() && a.empty() == m.a.empty() && static_cast<size_t>(a.end() - a.begin()) == a.size(), "size of " << mj::show(m));
        size_t i = 0;
        for (const json::value& x : a) {
            PBT_CHECK(&x == a.find_value(i) && &x == &a.at(i) && &x == &a[i] && &x == &v[i] && &x == &v.at(i), "iteration and positions differ at " << i);
            ++i;
        }
        PBT_CHECK(i == a.size(), "iteration visits " << i << " elements");
        i = 0;
        for (auto it = a.cbegin(); it != a.cend(); ++it) PBT_CHECK(&*it == &a[i++], "cbegin");
        i = a.size();
        for (auto it = a.rbegin(); it != a.rend(); ++it) PBT_CHECK(&*it == &a[--i], "rbegin");
        PBT_CHECK(i == 0, "reverse iteration");
        i = a.size();
        for (auto it = a.crbegin(); it != a.crend(); ++it) PBT_CHECK(&*it == &a[--i], "crbegin");
    }
    else if (m.k == model::Obj) {
        const json::object& o = v.as_object();
        PBT_CHECK(o.size() == m.o.size() && o.empty() == m.o.empty(), "size of " << mj::show(m));
        auto e = m.o.begin();
        for (const auto& [k, x] : o) {
            PBT_CHECK(e != m.o.end() && e->first == k, "the next member is " << printable(k));
            PBT_CHECK(&x == o.find_value(k) && &x == &o.at(k) && &x == v.find_value(k) && &x == &v.at(k), "iteration and keys differ at " << printable(k));
            ++e;
        }
        PBT_CHECK(e == m.o.end(), "iteration ends early");
        e = m.o.begin();
        for (auto it = o.cbegin(); it != o.cend(); ++it) PBT_CHECK(it->first == (e++)->first, "cbegin");
    }
}

// operator[] of something that is not const: the same element when it is there
static void check_subscript(const json::value& v, const V& m, const Key& k)
{
    const V* found = step(&m, k);
    json::value c = v;
    if (!found) {
        // a member that is asked for is created as null, in objects and empty values only
        if (k.by_key) {
            if (m.k == model::Obj || m.empty()) {
                V want = m.k == model::Obj ? m : V::obj();
                want.o[k.key];
                PBT_CHECK(c[k.key].is_null() && mj::to_model(c) == want, "operator[] of an absent key");
            }
            else {
                PBT_CHECK(throws<json::exception>([&] { c[k.key]; }) && mj::to_model(c) == m, "operator[] of " << mj::show(m));
            }
        }
        else if (m.k != model::Arr) {
            PBT_CHECK(throws<json::exception>([&] { v[k.pos]; }), "const operator[] of " << mj::show(m));
        }
        return;
    }
    if (k.by_key) {
        PBT_CHECK(&c[k.key] == c.find_value(k.key) && &c[std::string(k.key)] == c.find_value(k.key), "operator[]");
        PBT_CHECK(&c.as_object()[k.key] == c.find_value(k.key), "object operator[]");
        if (k.key.find('\0') == std::string::npos) PBT_CHECK(&c[k.key.c_str()] == c.find_value(k.key), "operator[const char*]");
    }
    else {
        PBT_CHECK(&c[k.pos] == c.find_value(k.pos) && &c.as_array()[k.pos] == c.find_value(k.pos), "operator[]");
        PBT_CHECK(&v[k.pos] == v.find_value(k.pos), "const operator[]");
        PBT_CHECK(&*(c.as_array().begin() + static_cast<std::ptrdiff_t>(k.pos)) == c.find_value(k.pos), "begin()");
    }
    PBT_CHECK(c == v, "operator[] of something there changed the value");
}

static void walk(Source& s, const json::value& v, const V& m, size_t& left)
{
    check_iteration(v, m);
    for (size_t i = 0; i < 3; ++i) {
        const Key k = gen_query(s, m);
        const V* found = step(&m, k);
        const std::string what = k.show() + " in " + mj::show(m);
        label(found ? "lookups of something there" : "lookups of something absent");
        if (k.by_key) {
            check_one(v, k.key, found, m.k == model::Obj, what);
            if (k.key.find('\0') == std::string::npos) check_one(v, k.key.c_str(), found, m.k == model::Obj, what);
            if (m.k == model::Obj) check_one(v.as_object(), k.key, found, true, what);
        }
        else {
            check_one(v, k.pos, found, m.k == model::Arr, what);
            if (m.k == model::Arr) check_one(v.as_array(), k.pos, found, true, what);
            if (k.pos < 1000) {
                PBT_CHECK(v.get(static_cast<int>(k.pos), json::value(-1)) == v.get(k.pos, json::value(-1)) && v.get(static_cast<unsigned short>(k.pos), json::value(-1)) == v.get(k.pos, json::value(-1)), "get with another integer type");
            }
            PBT_CHECK(v.get(-1, json::value("none")) == "none", "get(-1)");
        }
        check_subscript(v, m, k);
    }
    // paths from here
    for (size_t i = 0; i < 2; ++i) {
        std::vector<Key> path;
        const V* at = &m;
        static const V nothing;
        for (size_t n = 1 + s.below(3); path.size() < n;) {
            path.push_back(gen_query(s, at ? *at : nothing));
            at = step(at, path.back());
        }
        label(at ? "paths to something" : "paths to nothing");
        dispatch(v, &m, path, 0, "");
        if (m.k == model::Arr && !path[0].by_key) dispatch(v.as_array(), &m, path, 0, "");
        if (m.k == model::Obj && path[0].by_key) dispatch(v.as_object(), &m, path, 0, "");
    }
    PBT_CHECK((v.all<json::value>() == (m.k == model::Arr || m.k == model::Obj)), "all<value>");
    const auto all_of = [&](auto pred) {
        if (m.k == model::Arr) return std::all_of(m.a.begin(), m.a.end(), pred);
        return m.k == model::Obj && std::all_of(m.o.begin(), m.o.end(), [&](auto& x) { return pred(x.second); });
    };
    PBT_CHECK(v.all<int>() == all_of(G<int>::fits) && v.all<std::string>() == all_of(G<std::string>::fits) && v.all<bool>() == all_of(G<bool>::fits), "all");
    if (m.k == model::Arr) {
        for (size_t i = 0; i < m.a.size() && left > 0; ++i) {
            --left;
            walk(s, v.as_array()[i], m.a[i], left);
        }
    }
    else if (m.k == model::Obj) {
        for (auto& [k, x] : m.o) {
            if (!left) break;
            --left;
            walk(s, v.as_object().at(k), x, left);
        }
    }
}

void property(Source& s)
{
    V m = s.chance(90) ? model::gen_root(s, 16, 4) : model::gen_any(s, 3, 2);
    if (s.chance(2)) m = model::gen_bulk(s, std::move(m));
    json::value v;
    if ((m.k == model::Arr || m.k == model::Obj) && s.flip()) {
        model::Style st = model::gen_style(s, false);
        const std::string t = model::render_doc(s, st, m);
        auto p = json::parse(t);
        PBT_CHECK(p, "not parsed: " << printable(t));
        v = std::move(*p);
    }
    else v = mj::build(m);
    size_t left = 12;
    const std::string before = v.to_string();
    note("value", before);
    const json::value copy = v;
    walk(s, v, m, left);
    PBT_CHECK(mj::to_model(v) == m && v.to_string() == before && v == copy, "lookups changed the value");
    if (model::count_nodes(m) >= 2) nontrivial(hash_bytes(before, s.consumed()));
    if (before.size() > 20 && before.size() < 160) sample(before);
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
