// Failed allocations and refused operations lose and leak nothing.
#define PBT_IMPLEMENT
#include "typed.hpp"

namespace p16
{
enum class Shape { a_rather_long_enumerator_name_for_a_circle, square, triangle };
struct Inner
{
    std::string the_text_of_the_inner_structure;
    std::vector<std::string> list;
    MEO_JSONIZATION(the_text_of_the_inner_structure, MEO_OPT list);
};
struct Outer
{
    std::string a_member_with_a_long_name;
    std::vector<Inner> inner_structures_of_the_outer;
    std::map<std::string, std::vector<int>> numbers_by_their_names;
    std::optional<std::string> maybe_there_is_some_text;
    Shape shape_of_the_outer_structure = Shape::square;
    std::variant<int, std::string, std::vector<std::string>> one_of_several_alternatives;
    MEO_JSONIZATION(
        a_member_with_a_long_name, inner_structures_of_the_outer, MEO_OPT numbers_by_their_names, maybe_there_is_some_text, MEO_KEY("the shape under another name") shape_of_the_outer_structure,
        MEO_OPT one_of_several_alternatives);
};
}

namespace pbt
{
const char* const property_id = "P16";
using model::V;

static size_t g_points, g_thrown;
static uint64_t g_digest;
static std::string g_name;

// Runs op on fresh states, letting each of its allocations fail in turn. op may throw json::exception when
// `refusal`. check(state, threw) looks at what is left.
template <typename Make, typename Op, typename Check>
static void storm(Source& s, const std::string& name, Make make, Op op, Check check)
{
    long n = 0;
    bool refused = false;
    g_digest = hash_bytes(name, g_digest);
    note("operation", name);
    g_name = name;
    const auto run = [&](auto& st, long k, bool& bad) {
        bool threw = false;
        bad = false;
        g_alloc.seen = 0;
        g_alloc.fired = false;
        g_alloc.countdown = k;
        g_alloc.armed = true;
        try {
            op(st);
        }
        catch (const std::bad_alloc&) {
            threw = bad = true;
        }
        catch (const json::exception&) {
            threw = true;
        }
        catch (const std::out_of_range&) {
            threw = true;
        }
        g_alloc.armed = false;
        return threw;
    };
    try {
        // with memory: what is normal
        for (int i = 0; i < 2; ++i) {
            auto st = make();
            bool bad = false;
            refused = run(*st, 0, bad);
            n = g_alloc.seen;
            check(*st, refused, false);
        }
        for (long i = 1; i <= n; ++i) {
            // all of few, some of many
            if (n > 60 && i > 12 && i < n - 12 && s.below(static_cast<uint64_t>(n)) > 36) continue;
            const long before = g_alloc.live;
            {
                auto st = make();
                bool bad = false;
                const bool threw = run(*st, i, bad);
                if (!g_alloc.fired) continue;
                ++g_points;
                g_thrown += threw;
                PBT_CHECK(!bad || threw, "");
                check(*st, threw, !(threw && !bad));
                // and again
                const bool again = run(*st, 0, bad);
                PBT_CHECK(!bad, "bad_alloc when memory is available");
                (void)again;
            }
            PBT_CHECK(g_alloc.live == before, g_alloc.live - before << " allocations are left behind when allocation " << i << " of " << n << " fails");
        }
    }
    catch (const Failure& f) {
        fail(name + ": " + f.message);
    }
}

static std::string long_key(Source& s)
{
    return s.flip() ? model::gen_key(s) : "a key that needs memory of its own " + std::to_string(s.below(3));
}
static V tree(Source& s, size_t nodes = 6)
{
    V v = model::gen_any(s, nodes, 3);
    // strings that need memory
    if (s.flip()) {
        V w = s.flip() ? V::arr({ v, V::str("a string that is too long for the small buffer") }) : V::obj({ { long_key(s), v }, { "a name that is too long for the small buffer", V::str("short") } });
        return w;
    }
    return v;
}
static V container(Source& s, model::Kind k)
{
    V v = k == model::Arr ? V::arr() : V::obj();
    while (s.more(2)) {
        if (k == model::Arr) v.a.push_back(tree(s, 3));
        else v.o[long_key(s)] = tree(s, 3);
    }
    return v;
}
static json::array build_arr(const V& m)
{
    return mj::build(m).as_array();
}
static json::object build_obj(const V& m)
{
    return mj::build(m).as_object();
}

// After a failed edit: nothing of the old content is lost, and what is new is of the new content.
static bool between(const V& got, const V& before, const V& after)
{
    if (got == before || got == after) return true;
    if (before.k != got.k && before.empty() && got.k == after.k) return between(got, after.k == model::Arr ? V::arr() : V::obj(), after); // an empty value that turned into a container
    if (got.k == model::Arr && before.k == model::Arr && after.k == model::Arr) {
        if (got.a.size() < before.a.size() || got.a.size() > after.a.size()) return false;
        for (size_t i = 0; i < got.a.size(); ++i) {
            if (!(i < before.a.size() && got.a[i] == before.a[i]) && !(got.a[i] == after.a[i])) return false;
        }
        return true;
    }
    if (got.k == model::Obj && before.k == model::Obj && after.k == model::Obj) {
        for (auto& [k, x] : before.o) {
            if (!got.o.count(k)) return false;
        }
        for (auto& [k, x] : got.o) {
            const auto b = before.o.find(k), a = after.o.find(k);
            if (!(b != before.o.end() && b->second == x) && !(a != after.o.end() && a->second == x) && !(b == before.o.end() && a != after.o.end() && x == V::null())) return false;
        }
        return true;
    }
    return false;
}

struct State
{
    json::value x, y, z;
    json::array a, b;
    json::object o, p;
    std::string text, out;
    std::optional<json::value> r;
};

// an operation that only reads st.x: `right` looks at the result
template <typename Op, typename Right>
static void reading(Source& s, const std::string& name, const V& m, Op op, Right right)
{
    storm(
        s, name + " of " + mj::show(m),
        [&] {
            auto st = std::make_unique<State>();
            st->x = mj::build(m);
            return st;
        },
        op,
        [&](State& st, bool threw, bool) {
            PBT_CHECK(mj::to_model(st.x) == m, "what is read changed: " << mj::show(mj::to_model(st.x)) << " was " << mj::show(m));
            if (!threw) PBT_CHECK(right(st), "a wrong result of " << mj::show(m));
        });
}

static void parsing(Source& s)
{
    const bool jsonc = s.flip();
    model::Style st = model::gen_style(s, jsonc);
    V m = tree(s, 10);
    if (m.k != model::Arr && m.k != model::Obj) m = V::arr({ m });
    std::string text = model::render_doc(s, st, m);
    if (s.chance(40)) text = model::mutate(s, text, 1);
    const std::optional<V> want = model::parse(text, jsonc);
    const int how = static_cast<int>(s.below(3));
    storm(
        s, std::string(jsonc ? "parsec" : "parse") + " way " + std::to_string(how) + " of " + printable(text),
        [&] {
            auto st = std::make_unique<State>();
            st->text = text;
            st->r = json::value("before");
            return st;
        },
        [&](State& st) {
            switch (how) {
            case 0: st.r = jsonc ? json::parsec(st.text) : json::parse(st.text); break;
            case 1: {
                const std::string_view v = st.text;
                st.r = jsonc ? json::parsec(v) : json::parse(v);
                break;
            }
            default: {
                g_alloc.armed = false;
                std::istringstream in(st.text);
                g_alloc.armed = true;
                st.r = json::parse(in, false, jsonc);
                g_alloc.armed = false;
            }
            }
        },
        [&](State& st, bool threw, bool) {
            PBT_CHECK(st.text == text, "the text changed");
            if (threw) PBT_CHECK(st.r && *st.r == "before", "a result although it failed");
            else PBT_CHECK(st.r.has_value() == want.has_value() && (!want || mj::to_model(*st.r) == *want), "a wrong result instead of an exception: " << (st.r ? mj::show(mj::to_model(*st.r)) : "rejected"));
        });
}

static void printing(Source& s)
{
    const V m = tree(s);
    switch (s.below(4)) {
    case 0: reading(s, "to_string", m, [](State& st) { st.out = st.x.to_string(); }, [&](State& st) { return st.out == model::dump(m); }); break;
    case 1: reading(s, "format", m, [](State& st) { st.out = st.x.format(); }, [&](State& st) { return st.out == model::format(m, 4); }); break;
    case 2: reading(s, "dumps", m, [](State& st) { st.out = st.x.dumps(2); }, [&](State& st) { return st.out == model::format(m, 2); }); break;
    default:
        reading(
            s, "<<", m,
            [](State& st) {
                g_alloc.armed = false;
                auto o = std::make_unique<std::ostringstream>();
                g_alloc.armed = true;
                *o << st.x;
                g_alloc.armed = false;
                st.out = o->good() ? o->str() : "(bad)";
            },
            [&](State& st) { return st.out == model::format(m, 4) || (g_alloc.fired && st.out == "(bad)"); });
    }
}

static void copying(Source& s)
{
    const V m = tree(s);
    switch (s.below(5)) {
    case 0: reading(s, "copy", m, [](State& st) { json::value c(st.x); st.out = c == st.x ? "ok" : "no"; }, [](State& st) { return st.out == "ok"; }); break;
    case 1: { // assignment leaves its target
        const V old = tree(s);
        storm(
            s, "copy assignment of " + mj::show(m) + " over " + mj::show(old),
            [&] {
                auto st = std::make_unique<State>();
                st->x = mj::build(m);
                st->y = mj::build(old);
                return st;
            },
            [](State& st) { st.y = st.x; },
            [&](State& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.x) == m, "the source changed");
                PBT_CHECK(mj::to_model(st.y) == (threw ? old : m), "the target is " << mj::show(mj::to_model(st.y)) << " was " << mj::show(old));
            });
        break;
    }
    case 2: {
        const V ma = container(s, model::Arr), mb = container(s, model::Arr);
        storm(
            s, "array copy assignment of " + mj::show(ma) + " over " + mj::show(mb),
            [&] {
                auto st = std::make_unique<State>();
                st->a = build_arr(ma);
                st->b = build_arr(mb);
                return st;
            },
            [](State& st) { st.b = st.a; },
            [&](State& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.a) == ma, "the source changed");
                PBT_CHECK(mj::to_model(st.b) == (threw ? mb : ma), "the target is " << st.b.to_string());
            });
        break;
    }
    case 3: {
        const V ma = container(s, model::Obj), mb = container(s, model::Obj);
        storm(
            s, "object copy assignment of " + mj::show(ma) + " over " + mj::show(mb),
            [&] {
                auto st = std::make_unique<State>();
                st->o = build_obj(ma);
                st->p = build_obj(mb);
                return st;
            },
            [](State& st) { st.p = st.o; },
            [&](State& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.o) == ma, "the source changed");
                PBT_CHECK(mj::to_model(st.p) == (threw ? mb : ma), "the target is " << st.p.to_string());
            });
        break;
    }
    default: { // an own part or the parent
        if (!((m.k == model::Arr && !m.a.empty()) || (m.k == model::Obj && !m.o.empty()))) return;
        const bool down = s.flip();
        const V part = m.k == model::Arr ? m.a[0] : m.o.begin()->second;
        const std::string k = m.k == model::Obj ? m.o.begin()->first : "";
        V whole = m;
        (m.k == model::Arr ? whole.a[0] : whole.o[k]) = m;
        storm(
            s, (down ? "assignment of an own part of " : "assignment of the parent ") + mj::show(m),
            [&] {
                auto st = std::make_unique<State>();
                st->x = mj::build(m);
                return st;
            },
            [&](State& st) {
                if (st.x.type() != (m.k == model::Arr ? json::value::value_type::array : json::value::value_type::object) || st.x.empty()) return; // done before
                json::value& child = m.k == model::Arr ? st.x.as_array()[0] : st.x.as_object().begin()->second;
                down ? (st.x = child) : (child = st.x);
            },
            [&](State& st, bool threw, bool) { PBT_CHECK(mj::to_model(st.x) == (threw ? m : down ? part : whole), "the value is " << mj::show(mj::to_model(st.x)) << " was " << mj::show(m)); });
    }
    }
}

static void lookups(Source& s)
{
    const V m = container(s, s.flip() ? model::Arr : model::Obj);
    const std::string k = long_key(s);
    const V* f = m.k == model::Obj && m.o.count(k) ? &m.o.at(k) : nullptr;
    switch (s.below(7)) {
    case 0: reading(s, "find", m, [&](State& st) { st.r = st.x.find(k); }, [&](State& st) { return st.r.has_value() == (f != nullptr) && (!f || mj::to_model(*st.r) == *f); }); break;
    case 1: reading(s, "get with default", m, [&](State& st) { st.out = st.x.get(k, "a default that is too long for the small buffer"); }, [&](State& st) { return st.out == (f && f->k == model::Str ? f->s : "a default that is too long for the small buffer"); }); break;
    case 2: reading(s, "at", m, [&](State& st) { st.r = st.x.at(k); }, [&](State& st) { return f && mj::to_model(*st.r) == *f; }); break;
    case 3: reading(s, "as_string", m, [&](State& st) { st.out = st.x.as_string(); }, [&](State&) { return false; }); break;
    case 4: reading(s, "get value with default", m, [&](State& st) { st.r = st.x.get(k, "another key that needs memory", json::value("none")); }, [&](State& st) {
        const V* g = f && f->k == model::Obj && f->o.count("another key that needs memory") ? &f->o.at("another key that needs memory") : nullptr;
        return mj::to_model(*st.r) == (g ? *g : V::str("none"));
    }); break;
    case 5: reading(s, "comparison", m, [&](State& st) { st.out = st.x == st.x && st.x.contains(k) == (f != nullptr) && (st.x.find_value(k) != nullptr) == (f != nullptr) ? "ok" : "no"; }, [&](State& st) { return st.out == "ok"; }); break;
    default: reading(s, "as<array> and as<object>", m, [&](State& st) { st.x.is_array() ? st.y = st.x.as<json::array>() : st.y = st.x.as<json::object>(); st.out = st.y == st.x ? "ok" : "no"; }, [&](State& st) { return st.out == "ok"; });
    }
}

// typed data: there and back
template <typename T>
static void typed_one(Source& s, const char* name)
{
    using G = typed::G<T>;
    const T t = G::gen(s);
    const V m = G::to_v(t);
    struct St
    {
        json::value x;
        std::optional<T> got;
        T from;
    };
    storm(
        s, std::string("to JSON from ") + name + " " + mj::show(m), [&] { return std::make_unique<St>(St { {}, {}, t }); }, [](St& st) { st.x = json::value(st.from); },
        [&](St& st, bool threw, bool) {
            PBT_CHECK(G::same(st.from, t), "the source changed");
            if (threw) PBT_CHECK(st.x.is_null(), "the target changed");
            else PBT_CHECK(G::matches(mj::to_model(st.x), t), "wrong JSON " << st.x.to_string());
        });
    storm(
        s, std::string("is<> and as<> ") + name,
        [&] {
            auto st = std::make_unique<St>(St { mj::build(m), {}, t });
            return st;
        },
        [](St& st) {
            if (!st.x.template is<T>()) fail("is<> is false");
            st.got = st.x.template as<T>();
        },
        [&](St& st, bool threw, bool) {
            PBT_CHECK(mj::to_model(st.x) == m, "the JSON changed");
            if (threw) PBT_CHECK(!st.got, "a result although it failed");
            else PBT_CHECK(st.got && G::same(*st.got, G::from(m)), "a wrong result");
        });
    // something else, maybe refused
    const V other = tree(s);
    storm(
        s, std::string("as<> of something else ") + name + " " + mj::show(other),
        [&] {
            auto st = std::make_unique<St>(St { mj::build(other), {}, t });
            return st;
        },
        [](St& st) { st.got = st.x.template as<T>(); },
        [&](St& st, bool threw, bool) {
            PBT_CHECK(mj::to_model(st.x) == other, "the JSON changed");
            if (!threw) PBT_CHECK(G::fits(other) && G::same(*st.got, G::from(other)), "a wrong result instead of an exception");
        });
    // out of an rvalue
    storm(
        s, std::string("rvalue as<> ") + name,
        [&] {
            auto st = std::make_unique<St>(St { mj::build(m), {}, t });
            return st;
        },
        [](St& st) { st.got = std::move(st.x).template as<T>(); },
        [&](St& st, bool threw, bool) {
            st.x.to_string();
            if (!threw) PBT_CHECK(st.got && G::same(*st.got, G::from(m)), "a wrong result");
            st.x = mj::build(m);
        });
}

static void typed_any(Source& s)
{
    switch (s.below(7)) {
    case 0: return typed_one<std::string>(s, "string");
    case 1: return typed_one<std::vector<std::string>>(s, "vector<string>");
    case 2: return typed_one<std::map<std::string, std::vector<int>>>(s, "map<string, vector<int>>");
    case 3: return typed_one<std::optional<std::string>>(s, "optional<string>");
    case 4: return typed_one<std::tuple<std::string, std::vector<std::string>, int>>(s, "tuple");
    case 5: return typed_one<std::list<std::map<std::string, std::string>>>(s, "list<map>");
    default: return typed_one<std::variant<int, std::string, std::vector<std::string>>>(s, "variant");
    }
}

static p16::Outer gen_outer(Source& s)
{
    using namespace p16;
    Outer o;
    o.a_member_with_a_long_name = model::gen_string(s, 2);
    while (s.more(1)) o.inner_structures_of_the_outer.push_back({ "a text that is too long for the small buffer", { "x", "another text that is too long for the small buffer" } });
    while (s.more(1)) o.numbers_by_their_names[long_key(s)] = { 1, 2 };
    if (s.flip()) o.maybe_there_is_some_text = "some text that is too long for the small buffer";
    o.shape_of_the_outer_structure = s.pick({ Shape::a_rather_long_enumerator_name_for_a_circle, Shape::square, Shape::triangle });
    if (s.flip()) o.one_of_several_alternatives = std::vector<std::string> { "one more text that is too long for the small buffer" };
    return o;
}
static std::string text_of(const p16::Outer& o)
{
    return o.to_json().to_string();
}

static void structs(Source& s)
{
    using namespace p16;
    const Outer o = gen_outer(s);
    const std::string want = text_of(o);
    struct St
    {
        Outer from, got;
        json::value x;
        std::string key;
        bool ok = false, right = false;
    };
    const V m = *model::parse(want, false);
    // maybe something missing or mistyped
    V bad = m;
    bool valid = true;
    if (s.flip() && !bad.o.empty()) {
        auto it = std::next(bad.o.begin(), static_cast<std::ptrdiff_t>(s.below(bad.o.size())));
        const bool optional = it->first == "numbers_by_their_names" || it->first == "one_of_several_alternatives";
        if (s.flip()) {
            bad.o.erase(it);
            valid = optional;
        }
        else {
            it->second = V::boolean(true);
            valid = false;
        }
    }
    const auto make = [&] {
        auto st = std::make_unique<St>();
        st->from = o;
        st->x = mj::build(bad);
        return st;
    };
    switch (s.below(6)) {
    case 0:
        storm(
            s, "to_json " + mj::show(bad) + want, make, [](St& st) { st.x = st.from.to_json(); },
            [&](St& st, bool threw, bool) {
                PBT_CHECK(text_of(st.from) == want, "the struct changed");
                PBT_CHECK(mj::to_model(st.x) == (threw ? bad : m), "to_json gives " << st.x.to_string());
            });
        break;
    case 1:
        storm(
            s, "value(struct) " + mj::show(bad) + want, make, [](St& st) { json::value v = st.from; st.right = v.to_string().size() > 2; }, [&](St& st, bool threw, bool) {
                PBT_CHECK(text_of(st.from) == want, "the struct changed");
                if (!threw) PBT_CHECK(st.right, "no JSON");
            });
        break;
    case 2:
        storm(
            s, "from_json " + mj::show(bad) + want, make,
            [](St& st) {
                st.ok = st.got.from_json(st.x, st.key);
                st.right = true;
            },
            [&](St& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.x) == bad, "the JSON changed");
                if (threw) return;
                PBT_CHECK(st.ok == valid, "from_json says " << st.ok << " of " << mj::show(bad));
                if (valid && bad == m) PBT_CHECK(text_of(st.got) == want, "from_json gives " << text_of(st.got));
            });
        break;
    case 3:
        storm(
            s, "check_json " + mj::show(bad) + want, make, [](St& st) { st.ok = st.got.check_json(st.x, st.key); },
            [&](St& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.x) == bad, "the JSON changed");
                if (!threw) PBT_CHECK(st.ok == valid, "check_json says " << st.ok << " of " << mj::show(bad));
            });
        break;
    case 4:
        storm(
            s, "is<struct> " + mj::show(bad) + want, make, [](St& st) { st.ok = st.x.is<Outer>(); },
            [&](St& st, bool threw, bool) {
                PBT_CHECK(mj::to_model(st.x) == bad, "the JSON changed");
                if (!threw) PBT_CHECK(st.ok == valid, "is<> says " << st.ok << " of " << mj::show(bad));
            });
        break;
    default:
        storm(
            s, "as<struct> " + mj::show(bad) + want, make, [](St& st) { st.got = st.x.as<Outer>(); st.ok = true; },
            [&](St& st, bool threw, bool fired) {
                PBT_CHECK(mj::to_model(st.x) == bad, "the JSON changed");
                if (!threw) PBT_CHECK(valid, "as<> of " << mj::show(bad));
                if (threw && !fired) PBT_CHECK(!valid || g_alloc.fired, "as<> refuses " << mj::show(bad));
            });
    }
}

// edits of st.x: `after` is the normal result, nothing when it is refused
template <typename Op>
static void editing(Source& s, const std::string& name, const V& before, const std::optional<V>& after, const V& operand, Op op)
{
    storm(
        s, name + " on " + mj::show(before),
        [&] {
            auto st = std::make_unique<State>();
            st->x = mj::build(before);
            st->y = mj::build(operand);
            if (operand.k == model::Arr) st->a = build_arr(operand);
            if (operand.k == model::Obj) st->o = build_obj(operand);
            return st;
        },
        [&](State& st) { op(st); },
        [&](State& st, bool threw, bool) {
            const V got = mj::to_model(st.x);
            PBT_CHECK(threw || after, "not refused");
            if (!threw) PBT_CHECK(got == *after, "gives " << mj::show(got) << " not " << mj::show(*after));
            else if (!after) PBT_CHECK(got == before || (before.empty() && got.empty()), "a refused operation changed it to " << mj::show(got));
            else PBT_CHECK(between(got, before, *after), "leaves " << mj::show(got) << " between " << mj::show(before) << " and " << mj::show(*after));
            PBT_CHECK(st.x.to_string() == model::dump(got), "the text");
            PBT_CHECK(mj::to_model(st.y) == operand, "the operand changed");
            if (operand.k == model::Arr) PBT_CHECK(mj::to_model(st.a) == operand, "the operand changed");
            if (operand.k == model::Obj) PBT_CHECK(mj::to_model(st.o) == operand, "the operand changed");
            st.x = mj::build(before); // for the repetition
        });
}
static std::optional<V> as_arr(V m)
{
    if (m.k != model::Arr && m.empty()) m = V::arr();
    return m.k == model::Arr ? std::optional<V>(m) : std::nullopt;
}
static std::optional<V> as_obj(V m)
{
    if (m.k != model::Obj && m.empty()) m = V::obj();
    return m.k == model::Obj ? std::optional<V>(m) : std::nullopt;
}

static void edits(Source& s)
{
    const size_t c = s.below(15);
    const V m = s.chance(80) ? container(s, c < 6 ? model::Arr : model::Obj) : tree(s, 2);
    const V y = c == 2 || c == 3 || c == 4 ? container(s, model::Arr) : c == 8 || c == 9 || c == 10 ? container(s, model::Obj) : tree(s, 4);
    const std::string k = m.k == model::Obj && !m.o.empty() && s.flip() ? m.o.begin()->first : long_key(s);
    std::optional<V> a = as_arr(m), o = as_obj(m);
    if (c < 6) {
        switch (c) {
        case 0:
            if (a) a->a.push_back(y);
            return editing(s, "emplace(value)", m, a, y, [](State& st) { st.x.emplace(st.y); });
        case 1:
            if (a) a->a.push_back(y);
            return editing(s, "push_back(value&&)", m, a, y, [](State& st) {
                g_alloc.armed = false;
                json::value t = st.y;
                g_alloc.armed = true;
                st.x.as_array().push_back(std::move(t));
            });
        case 2:
            if (a) a->a.insert(a->a.end(), y.a.begin(), y.a.end());
            return editing(s, "+=", m, a, y, [](State& st) { st.x += st.a; });
        case 3:
            if (a) a->a.insert(a->a.end(), y.a.begin(), y.a.end());
            return editing(s, "+= array&&", m, a, y, [](State& st) {
                g_alloc.armed = false;
                json::array t = st.a;
                g_alloc.armed = true;
                st.x += std::move(t);
            });
        case 4: { // a new array
            std::optional<V> r = m.k == model::Arr ? std::optional<V>(m) : std::nullopt;
            if (r) r->a.insert(r->a.end(), y.a.begin(), y.a.end());
            return editing(s, "x = x + array", m, r, y, [](State& st) { st.x = std::as_const(st.x) + st.a; });
        }
        default:
            return editing(s, "as_array()", m, a, y, [](State& st) { st.x.as_array(); });
        }
    }
    switch (c) {
    case 6:
        if (o) o->o[k] = y;
        return editing(s, "emplace(key, value)", m, o, y, [&](State& st) { st.x.emplace(k, st.y); });
    case 7:
        if (o) o->o[k] = y;
        return editing(s, "[key] = value", m, o, y, [&](State& st) { st.x[k] = st.y; });
    case 8:
        if (o) {
            for (auto& [n, x] : y.o) o->o[n] = x;
        }
        return editing(s, "|=", m, o, y, [](State& st) { st.x |= st.o; });
    case 9:
        if (o) {
            for (auto& [n, x] : y.o) o->o[n] = x;
        }
        return editing(s, "|= object&&", m, o, y, [](State& st) {
            g_alloc.armed = false;
            json::object t = st.o;
            g_alloc.armed = true;
            st.x |= std::move(t);
        });
    case 10: {
        std::optional<V> r = m.k == model::Obj ? std::optional<V>(m) : std::nullopt;
        if (r) {
            for (auto& [n, x] : y.o) r->o[n] = x;
        }
        return editing(s, "x = x | object", m, r, y, [](State& st) { st.x = std::as_const(st.x) | st.o; });
    }
    case 11:
        if (o) o->o[k];
        return editing(s, "[key]", m, o, y, [&](State& st) { st.x[k]; });
    case 12:
        if (o) o->o.erase(k);
        return editing(s, "erase", m, o, y, [&](State& st) { st.x.erase(k); });
    case 13: { // moves need no memory
        editing(s, "move assignment", m, y, V::null(), [&](State& st) {
            g_alloc.armed = false;
            json::value t = mj::build(y);
            g_alloc.armed = true;
            const long seen = g_alloc.seen;
            json::value u(std::move(t));
            st.x = std::move(u);
            std::swap(st.x, u);
            std::swap(st.x, u);
            if (g_alloc.seen != seen) {
                g_alloc.armed = false;
                fail("moving allocates");
            }
        });
        return;
    }
    default:
        if (o) {
            o->o[k] = V::arr({ V::str("a text that is too long for the small buffer"), V::num("1") });
        }
        return editing(s, "emplace(key, vector)", m, o, y, [&](State& st) { st.x.emplace(k, json::array { "a text that is too long for the small buffer", 1 }); });
    }
}

static void construction(Source& s)
{
    const V m = tree(s, 4), n = tree(s, 4);
    switch (s.below(4)) {
    case 0: reading(s, "array {...}", m, [](State& st) { st.a = json::array { st.x, "a text that is too long for the small buffer", st.x }; }, [&](State& st) { return mj::to_model(st.a) == V::arr({ m, V::str("a text that is too long for the small buffer"), m }); }); break;
    case 1: reading(s, "object {...}", m, [](State& st) { st.o = json::object { { "a key that is too long for the small buffer", st.x }, { "k", st.x } }; }, [&](State& st) { return mj::to_model(st.o) == V::obj({ { "a key that is too long for the small buffer", m }, { "k", m } }); }); break;
    case 2: reading(s, "value {...}", m, [](State& st) { st.y = json::value { { "a key that is too long for the small buffer", st.x }, { "k", 1 } }; }, [&](State& st) { return mj::to_model(st.y) == V::obj({ { "a key that is too long for the small buffer", m }, { "k", V::num("1") } }); }); break;
    default:
        reading(
            s, "enums", m,
            [](State& st) {
                st.y = json::value(p16::Shape::a_rather_long_enumerator_name_for_a_circle);
                st.out = st.y.as<p16::Shape>() == p16::Shape::a_rather_long_enumerator_name_for_a_circle ? "ok" : "no";
                st.x.is<p16::Shape>();
            },
            [](State& st) { return st.out == "ok" && st.y == "a_rather_long_enumerator_name_for_a_circle"; });
    }
}

void property(Source& s)
{
    g_points = g_thrown = 0;
    g_digest = 0;
    const size_t c = s.weighted({ 4, 2, 4, 3, 4, 4, 8, 2 });
    static const char* const names[] = { "parsing", "printing", "copying", "lookups", "typed data", "structs", "edits", "construction" };
    switch (c) {
    case 0: parsing(s); break;
    case 1: printing(s); break;
    case 2: copying(s); break;
    case 3: lookups(s); break;
    case 4: typed_any(s); break;
    case 5: structs(s); break;
    case 6: edits(s); break;
    default: construction(s);
    }
    label(names[c]);
    label("allocations made to fail", g_points);
    label("of these, operations that threw", g_thrown);
    if (g_points) nontrivial(hash_bytes(names[c], g_digest));
    if (g_points > 3) sample(g_name.substr(0, 160) + ": " + std::to_string(g_points) + " allocations failed in turn");
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
