// Equality is structural and consistent.
#define PBT_IMPLEMENT
#include <unordered_map>

#include "mj.hpp"

namespace pbt
{
const char* const property_id = "P15";
using model::V;

// The same content by another way of building it
static json::value build_somehow(Source& s, const V& m)
{
    switch (m.k) {
    case model::Arr: {
        json::array a;
        switch (s.below(4)) {
        case 0:
            for (auto& x : m.a) a.push_back(build_somehow(s, x));
            break;
        case 1: // from the middle, in two parts
        {
            const size_t cut = s.below(m.a.size() + 1);
            json::array b;
            for (size_t i = 0; i < m.a.size(); ++i) (i < cut ? a : b).emplace_back(build_somehow(s, m.a[i]));
            a += b;
            break;
        }
        case 2: { // with something in excess, erased
            const size_t extra = s.below(m.a.size() + 1);
            for (size_t i = 0; i <= m.a.size(); ++i) {
                if (i == extra) a.push_back("excess");
                if (i < m.a.size()) a.push_back(build_somehow(s, m.a[i]));
            }
            a.erase(extra);
            break;
        }
        default: {
            std::vector<json::value> v;
            for (auto& x : m.a) v.push_back(build_somehow(s, x));
            a = v;
        }
        }
        return a;
    }
    case model::Obj: {
        std::vector<const std::pair<const std::string, V>*> ms;
        for (auto& x : m.o) ms.push_back(&x);
        for (size_t i = ms.size(); i > 1; --i) std::swap(ms[i - 1], ms[i - 1 - s.below(i)]);
        json::object o;
        switch (s.below(4)) {
        case 0:
            for (auto* x : ms) o.emplace(x->first, build_somehow(s, x->second));
            break;
        case 1: // overwriting
            for (auto* x : ms) o[x->first] = "before";
            for (auto* x : ms) o.insert(x->first, build_somehow(s, x->second));
            break;
        case 2: { // merging
            json::object p;
            for (auto* x : ms) (s.flip() ? o : p)[x->first] = build_somehow(s, x->second);
            if (s.flip()) o |= p;
            else o = p | o;
            break;
        }
        default: {
            std::unordered_map<std::string, json::value> u;
            for (auto* x : ms) u.emplace(x->first, build_somehow(s, x->second));
            if (s.flip()) {
                o = u;
                o.emplace("\x01 excess", 1);
                o.erase("\x01 excess");
            }
            else o = json::object(std::move(u));
        }
        }
        if (m.o.count("\x01 excess")) return mj::build(m);
        return o;
    }
    default: return mj::build(m);
    }
}

// Another tree, close to m
static V near(Source& s, V m)
{
    const size_t n = model::count_nodes(m);
    size_t at = s.below(n);
    std::function<bool(V&)> go = [&](V& x) {
        if (at-- == 0) {
            switch (s.below(8)) {
            case 0: // the same text, another kind
                if (x.k == model::Num) x = V::str(x.s);
                else if (x.k == model::Str && x.s == "null") x = V::null();
                else if (x.k == model::Str) x = model::parse("[" + x.s + "]", false) ? model::parse("[" + x.s + "]", false)->a.empty() ? V::null() : model::parse("[" + x.s + "]", false)->a[0] : V::arr({ x });
                else if (x.k == model::Null) x = V::str("null");
                else if (x.k == model::Bool) x = V::str(x.b ? "true" : "false");
                else if (x.k == model::Arr) x = V::obj();
                else x = V::arr();
                break;
            case 1: // empty things
                x = s.pick({ V::null(), V::str(""), V::arr(), V::obj(), V::num("0"), V::boolean(false), V::num("-0"), V::num("0.0") });
                break;
            case 2: // the same number, another text
                if (x.k == model::Num) x.s = x.s.find_first_of(".eE") == std::string::npos ? x.s + ".0" : x.s + (x.s.find_first_of("eE") == std::string::npos ? "0" : "0");
                else if (x.k == model::Bool) x.b = !x.b;
                else if (x.k == model::Str && !x.s.empty()) x.s[s.below(x.s.size())] ^= static_cast<char>(1 << s.below(8));
                break;
            case 3: // a bit more
                if (x.k == model::Str) x.s += s.pick({ '\0', 'a', ' ' });
                else if (x.k == model::Arr) x.a.push_back(V::null());
                else if (x.k == model::Obj) x.o[model::gen_key(s)] = V::null();
                break;
            case 4: // a bit less
                if (x.k == model::Str && !x.s.empty()) x.s.pop_back();
                else if (x.k == model::Arr && !x.a.empty()) x.a.erase(x.a.begin() + static_cast<std::ptrdiff_t>(s.below(x.a.size())));
                else if (x.k == model::Obj && !x.o.empty()) x.o.erase(std::next(x.o.begin(), static_cast<std::ptrdiff_t>(s.below(x.o.size()))));
                break;
            case 5: // another order, another name
                if (x.k == model::Arr && x.a.size() > 1) std::swap(x.a[0], x.a[s.below(x.a.size())]);
                else if (x.k == model::Obj && !x.o.empty()) {
                    auto it = std::next(x.o.begin(), static_cast<std::ptrdiff_t>(s.below(x.o.size())));
                    V y = it->second;
                    std::string k = it->first;
                    x.o.erase(it);
                    if (!k.empty() && s.flip()) k[s.below(k.size())] ^= 0x20;
                    else k += s.pick({ '\0', 'a' });
                    x.o[k] = y;
                }
                break;
            case 6: { // exchanged values
                if (x.k == model::Obj && x.o.size() > 1) std::swap(x.o.begin()->second, std::next(x.o.begin(), 1 + static_cast<std::ptrdiff_t>(s.below(x.o.size() - 1)))->second);
                else x = V::arr({ x });
                break;
            }
            default: x = model::gen_any(s, 2, 2);
            }
            return true;
        }
        for (auto& y : x.a) {
            if (go(y)) return true;
        }
        for (auto& [k, y] : x.o) {
            if (go(y)) return true;
        }
        return false;
    };
    go(m);
    return m;
}

static void check_pair(const json::value& a, const V& ma, const json::value& b, const V& mb)
{
    const bool eq = ma == mb;
    const auto both = [&] { return mj::show(ma) + " and " + mj::show(mb); };
    PBT_CHECK((a == b) == eq, both() << " ==: " << (a == b));
    PBT_CHECK((b == a) == eq, both() << " == the other way round: " << (b == a));
    PBT_CHECK((a != b) == !eq && (b != a) == !eq, both() << " !=");
    PBT_CHECK((a.to_string() == b.to_string()) == eq, both() << " print " << printable(a.to_string()) << " and " << printable(b.to_string()));
    PBT_CHECK((a.format() == b.format()) == eq, both() << " format");
    const json::array aa { a }, bb { b };
    PBT_CHECK((aa == bb) == eq && (aa != bb) == !eq, both() << " as elements");
    const json::object oa { { "k", a } }, ob { { "k", b } };
    PBT_CHECK((oa == ob) == eq && (oa != ob) == !eq, both() << " as members");
    PBT_CHECK((json::value(aa) == bb) == eq && (json::value(oa) == ob) == eq, both() << " as a value and a container");
    if (ma.k == model::Arr && mb.k == model::Arr) {
        PBT_CHECK((a.as_array() == b.as_array()) == eq && (a.as_array() != b.as_array()) == !eq, both() << " as arrays");
        PBT_CHECK((a == b.as_array()) == eq && (a != b.as_array()) == !eq, both() << " as value and array");
    }
    if (ma.k == model::Obj && mb.k == model::Obj) {
        PBT_CHECK((a.as_object() == b.as_object()) == eq && (a.as_object() != b.as_object()) == !eq, both() << " as objects");
        PBT_CHECK((a == b.as_object()) == eq && (a != b.as_object()) == !eq, both() << " as value and object");
    }
    label(eq ? "equal pairs" : "unequal pairs");
}

static void check_native(const json::value& a, const V& m)
{
    PBT_CHECK((a == nullptr) == (m.k == model::Null), "== nullptr of " << mj::show(m));
    PBT_CHECK((a == true) == (m == V::boolean(true)) && (a == false) == (m == V::boolean(false)), "== bool of " << mj::show(m));
    PBT_CHECK((a == 1) == (m == V::num("1")) && (a == 0) == (m == V::num("0")), "== int of " << mj::show(m));
    PBT_CHECK((a == "") == (m == V::str("")) && (a == std::string("a")) == (m == V::str("a")), "== string of " << mj::show(m));
    if (m.k == model::Str) PBT_CHECK(a == m.s && !(a != m.s) && a == std::string_view(m.s) && a != m.s + "x", "== std::string of " << mj::show(m));
    PBT_CHECK((a == json::array()) == (m == V::arr()) && (a == json::object()) == (m == V::obj()), "== empty container of " << mj::show(m));
}

void property(Source& s)
{
    V a = s.chance(80) ? model::gen_root(s, 14, 4) : model::gen_any(s, 2, 2);
    if (s.chance(2)) a = model::gen_bulk(s, std::move(a));
    V b = a;
    for (size_t i = s.weighted({ 3, 5, 2 }); i > 0; --i) b = near(s, std::move(b));
    V c = s.flip() ? b : near(s, s.flip() ? a : b);
    const json::value ja = build_somehow(s, a), jb = build_somehow(s, b), jc = build_somehow(s, c);
    note("a", model::dump(a));
    note("b", model::dump(b));
    note("c", model::dump(c));
    PBT_CHECK(mj::to_model(ja) == a && mj::to_model(jb) == b && mj::to_model(jc) == c, "building gives another value");
    PBT_CHECK(ja == ja && !(ja != ja), "not equal to itself: " << mj::show(a));
    check_pair(ja, a, build_somehow(s, a), a);
    check_pair(ja, a, jb, b);
    check_pair(jb, b, jc, c);
    check_pair(ja, a, jc, c);
    if (ja == jb && jb == jc) PBT_CHECK(ja == jc, "not transitive: " << mj::show(a));
    check_native(ja, a);
    check_native(jb, b);
    // a copy, and the parse of the text
    json::value copy = jb;
    check_pair(copy, b, ja, a);
    if (a.k == model::Arr || a.k == model::Obj) {
        model::Style st = model::gen_style(s, false);
        const std::string t = model::render_doc(s, st, a);
        auto p = json::parse(t);
        PBT_CHECK(p, "not parsed: " << printable(t));
        check_pair(*p, a, ja, a);
        check_pair(*p, a, jb, b);
    }
    PBT_CHECK(mj::to_model(ja) == a && mj::to_model(jb) == b && mj::to_model(jc) == c, "comparing changed a value");
    if (model::count_nodes(a) >= 2) nontrivial(hash_bytes(model::dump(a), hash_bytes(model::dump(b))));
    const std::string show = model::dump(a) + " and " + model::dump(b);
    if (show.size() > 20 && show.size() < 200) sample(show);
}

// every pair of small values
static const std::vector<V>& small()
{
    static const std::vector<V> v = [] {
        std::vector<V> r = { V::null(), V::boolean(true), V::boolean(false), V::str(""), V::str("null"), V::str("true"), V::str("false"), V::str("0"), V::str(std::string(1, '\0')), V::str("a"), V::str("A"), V::str("[]"), V::str("{}"),
                             V::num("0"), V::num("-0"), V::num("0.0"), V::num("1"), V::num("1.0"), V::num("1e0"), V::num("1E0"), V::num("10"), V::num("1e1"), V::num("-1"), V::arr(), V::obj() };
        const std::vector<V> leaf = r;
        for (auto& x : leaf) r.push_back(V::arr({ x }));
        for (auto& x : leaf) r.push_back(V::obj({ { "k", x } }));
        for (auto& x : { leaf[0], leaf[1], leaf[3], leaf[13], leaf[23] }) {
            r.push_back(V::arr({ x, x }));
            r.push_back(V::arr({ V::null(), x }));
            r.push_back(V::obj({ { "k", x }, { "l", V::null() } }));
            r.push_back(V::obj({ { "", x } }));
            r.push_back(V::arr({ V::arr({ x }) }));
            r.push_back(V::obj({ { "k", V::obj({ { "k", x } }) } }));
        }
        return r;
    }();
    return v;
}
void custom(const std::string& kind, const std::string& payload)
{
    if (kind != "row") return;
    const size_t i = std::stoul(payload);
    const V& a = small().at(i);
    const json::value ja = mj::build(a);
    for (auto& b : small()) {
        check_pair(ja, a, mj::build(b), b);
        nontrivial(hash_bytes(model::dump(a), hash_bytes(model::dump(b))));
    }
    check_native(ja, a);
    // texts of every length, differing in one place
    std::string t(i * 3, 'x');
    const json::value jt(t);
    for (size_t k = 0; k < t.size(); ++k) {
        for (char d : { '\x01', '\x80' }) {
            std::string u = t;
            u[k] ^= d;
            check_pair(jt, V::str(t), json::value(u), V::str(u));
            check_pair(json::value(json::object { { t, 1 } }), V::obj({ { t, V::num("1") } }), json::value(json::object { { u, 1 } }), V::obj({ { u, V::num("1") } }));
        }
    }
}
void directed()
{
    for (size_t i = 0; i < small().size(); ++i) {
        if (mine(i)) run_custom("row", std::to_string(i));
    }
    if (g_worker == 0) label("pairs of small values", small().size() * small().size());
}
}
