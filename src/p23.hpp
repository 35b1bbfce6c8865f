// Types that bring their own conversions: members to_json/check_json/from_json or a specialisation of
// ext::jsonization, with or without the moving hooks, for types of all kinds the library could also convert
// by itself. What the hooks do is unlike the built-in conversion, and every call of one is counted.
#pragma once
#include "types.hpp"

#include <chrono>

namespace hooked
{
using model::V;
using pbt::Source;
using std::string;

// ---------------------------------------------------------------- the hooks' JSON
enum Shape { STR, ARR, OBJ, NUM, MIX };
inline V encode(Shape shape, unsigned n)
{
    switch (shape == MIX ? static_cast<Shape>(n % 4) : shape) {
    case STR: return V::str("u" + std::to_string(n));
    case ARR: return V::arr({ V::str("u"), V::num(std::to_string(n)) });
    case OBJ: return V::obj({ { "u", V::num(std::to_string(n)) }, { "extra", V::null() } });
    default: return V::num(std::to_string(n + 1) + "007");
    }
}
inline std::optional<unsigned> number(const std::string& s)
{
    if (s.empty() || s.size() > 7 || s.find_first_not_of("0123456789") != std::string::npos || (s[0] == '0' && s.size() > 1)) return std::nullopt;
    return static_cast<unsigned>(std::stoul(s));
}
inline std::optional<unsigned> decode(Shape shape, const V& v)
{
    std::optional<unsigned> n;
    Shape is = MIX;
    if (v.k == model::Str && v.s.size() > 1 && v.s[0] == 'u') n = number(v.s.substr(1)), is = STR;
    else if (v.k == model::Arr && v.a.size() == 2 && v.a[0] == V::str("u") && v.a[1].k == model::Num) n = number(v.a[1].s), is = ARR;
    else if (v.k == model::Obj && v.o.size() == 2 && v.o.count("u") && v.o.count("extra") && v.o.at("u").k == model::Num) n = number(v.o.at("u").s), is = OBJ;
    else if (v.k == model::Num && v.s.size() > 3 && v.s.compare(v.s.size() - 3, 3, "007") == 0) {
        n = number(v.s.substr(0, v.s.size() - 3));
        if (n && !(*n)--) return std::nullopt;
        is = NUM;
    }
    if (!n || is != (shape == MIX ? static_cast<Shape>(*n % 4) : shape)) return std::nullopt;
    return n;
}

// ---------------------------------------------------------------- what is called
struct Boom // thrown by a hook
{
    int call;
};
struct BoomStd : std::runtime_error, Boom
{
    explicit BoomStd(int c) : std::runtime_error("a hook failed"), Boom { c } {}
};
struct BoomJson : json::exception, Boom
{
    explicit BoomJson(int c) : json::exception("a hook failed"), Boom { c } {}
};
struct Calls
{
    int to, move_to, check, from, move_from;
    int all() const { return to + move_to + check + from + move_from; }
    string show() const
    {
        std::ostringstream o;
        o << "to_json " << to << ", move_to_json " << move_to << ", check_json " << check << ", from_json " << from << ", move_from_json " << move_from;
        return o.str();
    }
};
inline Calls calls {};
inline int boom_at = 0;        // the k-th call throws
inline int boom_kind = 0;      // what it throws
inline int refuse_at = 0;      // the k-th (move_)from_json returns false
inline int elements = 0;       // counted by G<X>::to_v
inline void reset() { calls = Calls {}, boom_at = 0, refuse_at = 0; }
inline void called(int& counter)
{
    ++counter;
    if (boom_at && calls.all() == boom_at) {
        switch (boom_kind) {
        case 0: throw Boom { boom_at };
        case 1: throw BoomStd(boom_at);
        default: throw BoomJson(boom_at);
        }
    }
}
inline bool refused() { return refuse_at && calls.from + calls.move_from == refuse_at; }

// ---------------------------------------------------------------- subjects
// S<X>: shape of the JSON, make(n), num(x)
template <typename X>
struct S;

template <typename X>
struct Hooks
{
    json::value to_json(const X& x) const
    {
        called(calls.to);
        return mj::build(encode(S<X>::shape, S<X>::num(x)));
    }
    bool check_json(const json::value& v) const
    {
        called(calls.check);
        return decode(S<X>::shape, mj::to_model(v)).has_value();
    }
    bool from_json(const json::value& v, X& x) const
    {
        called(calls.from);
        const auto n = decode(S<X>::shape, mj::to_model(v));
        if (!n || refused()) return false;
        x = S<X>::make(*n);
        return true;
    }
};
template <typename X>
struct MovingHooks : Hooks<X>
{
    json::value move_to_json(X&& x) const
    {
        called(calls.move_to);
        return mj::build(encode(S<X>::shape, S<X>::num(x)));
    }
    bool move_from_json(json::value&& v, X& x) const
    {
        called(calls.move_from);
        const auto n = decode(S<X>::shape, mj::to_model(v));
        if (!n || refused()) return false;
        x = S<X>::make(*n);
        return true;
    }
};

template <typename X>
constexpr bool moving = false;
template <typename X>
constexpr bool hooks_are_members = false;

struct Member
{
    unsigned n = 0;
    json::value to_json() const
    {
        called(calls.to);
        return mj::build(encode(MIX, n));
    }
    bool check_json(const json::value& v) const
    {
        called(calls.check);
        return decode(MIX, mj::to_model(v)).has_value();
    }
    bool from_json(const json::value& v)
    {
        called(calls.from);
        const auto x = decode(MIX, mj::to_model(v));
        if (!x || refused()) return false;
        n = *x;
        return true;
    }
};
struct MemberVector : std::vector<unsigned>
{
    json::value to_json() const
    {
        called(calls.to);
        return mj::build(encode(STR, static_cast<unsigned>(size())));
    }
    bool check_json(const json::value& v) const
    {
        called(calls.check);
        return decode(STR, mj::to_model(v)).has_value();
    }
    bool from_json(const json::value& v)
    {
        called(calls.from);
        const auto x = decode(STR, mj::to_model(v));
        if (!x || refused()) return false;
        assign(*x, 7);
        return true;
    }
};
struct Plain { unsigned n = 0; };
struct PlainMoving { unsigned n = 0; };
enum class Enum : unsigned { a, b, c };
enum class EnumMoving : short { a, b = -4 };
struct StringLike : string { using string::string; };
struct VectorLike : std::vector<unsigned> { using std::vector<unsigned>::vector; };
struct MapLike : std::map<string, unsigned> { };
struct ToString { unsigned n = 0; operator string() const { return "text"; } };
struct Nullable { unsigned n = 0; explicit operator bool() const { return n % 2; } int operator*() const { return 5; } };
struct Range { unsigned n = 0; using value_type = int; const int* begin() const { static int i = 3; return &i; } const int* end() const { return begin() + 1; } };

#define SUBJECT(X, SHAPE, MAKE, NUM)                                       \
    template <>                                                            \
    struct S<X>                                                            \
    {                                                                      \
        using T = X;                                                       \
        static constexpr Shape shape = SHAPE;                              \
        static T make(unsigned n) { return MAKE; }                         \
        static unsigned num(const T& x) { return static_cast<unsigned>(NUM); } \
    };
using VectorU = std::vector<unsigned>;
using SetU = std::set<unsigned>;
using PairU = std::pair<int, unsigned>;
using TupleU = std::tuple<int, unsigned>;
using Tuple1U = std::tuple<unsigned>;
using MapU = std::map<string, unsigned>;
using MapI = std::map<int, int>;
using OptU = std::optional<unsigned>;
using VarU = std::variant<unsigned, string>;
using ArrU = std::array<unsigned, 2>;
using UniqueU = std::unique_ptr<unsigned>;
using SharedU = std::shared_ptr<unsigned>;
using Seconds = std::chrono::seconds;
SUBJECT(Member, MIX, (Member { n }), x.n)
SUBJECT(MemberVector, STR, ([&] { T t; t.assign(n, 7); return t; }()), x.size())
SUBJECT(Plain, MIX, (Plain { n }), x.n)
SUBJECT(PlainMoving, MIX, (PlainMoving { n }), x.n)
SUBJECT(Enum, OBJ, (static_cast<T>(n)), x)
SUBJECT(EnumMoving, STR, (static_cast<T>(n)), x)
SUBJECT(StringLike, MIX, (StringLike(n, 'x')), x.size())
SUBJECT(VectorLike, STR, (VectorLike(n, 7u)), x.size())
SUBJECT(MapLike, ARR, ([&] { T t; t["k"] = n; return t; }()), (x.empty() ? 0 : x.begin()->second))
SUBJECT(ToString, NUM, (ToString { n }), x.n)
SUBJECT(Nullable, MIX, (Nullable { n }), x.n)
SUBJECT(Range, OBJ, (Range { n }), x.n)
SUBJECT(VectorU, OBJ, (T(n, 7u)), x.size())
SUBJECT(SetU, ARR, (T { n }), (x.empty() ? 0 : *x.begin()))
SUBJECT(PairU, ARR, (T { -1, n }), x.second)
SUBJECT(TupleU, STR, (T { -1, n }), std::get<1>(x))
SUBJECT(Tuple1U, ARR, (T { n }), std::get<0>(x))
SUBJECT(MapU, ARR, ([&] { T t; t["k"] = n; return t; }()), (x.empty() ? 0 : x.begin()->second))
SUBJECT(MapI, OBJ, ([&] { T t; t[1] = static_cast<int>(n); return t; }()), (x.empty() ? 0 : x.begin()->second))
SUBJECT(OptU, MIX, (T(n)), x.value_or(0))
SUBJECT(VarU, MIX, (n % 3 ? T(n) : T(string(n, 'x'))), (x.index() ? std::get<1>(x).size() : std::get<0>(x)))
SUBJECT(ArrU, OBJ, (T { 1, n }), x[1])
SUBJECT(UniqueU, NUM, (std::make_unique<unsigned>(n)), (x ? *x : 0))
SUBJECT(SharedU, STR, (std::make_shared<unsigned>(n)), (x ? *x : 0))
SUBJECT(Seconds, MIX, (T(n)), x.count())

template <> inline constexpr bool moving<PlainMoving> = true;
template <> inline constexpr bool moving<EnumMoving> = true;
template <> inline constexpr bool moving<VectorU> = true;
template <> inline constexpr bool moving<Tuple1U> = true;
template <> inline constexpr bool moving<MapU> = true;
template <> inline constexpr bool moving<OptU> = true;
template <> inline constexpr bool moving<VarU> = true;
template <> inline constexpr bool moving<UniqueU> = true;
template <> inline constexpr bool moving<StringLike> = true;
template <> inline constexpr bool hooks_are_members<Member> = true;
template <> inline constexpr bool hooks_are_members<MemberVector> = true;

// only one direction is the user's
struct OutOnly { unsigned n = 0; };
using DequeU = std::deque<unsigned>; // to_json only
using ListU = std::list<unsigned>;   // check_json and from_json only
} // namespace hooked

namespace json::ext
{
#define HOOKS(X) \
    template <>  \
    class jsonization<hooked::X> : public std::conditional_t<hooked::moving<hooked::X>, hooked::MovingHooks<hooked::X>, hooked::Hooks<hooked::X>> { };
HOOKS(Plain)
HOOKS(PlainMoving)
HOOKS(Enum)
HOOKS(EnumMoving)
HOOKS(StringLike)
HOOKS(VectorLike)
HOOKS(MapLike)
HOOKS(ToString)
HOOKS(Nullable)
HOOKS(Range)
HOOKS(VectorU)
HOOKS(SetU)
HOOKS(PairU)
HOOKS(TupleU)
HOOKS(Tuple1U)
HOOKS(MapU)
HOOKS(MapI)
HOOKS(OptU)
HOOKS(VarU)
HOOKS(ArrU)
HOOKS(UniqueU)
HOOKS(SharedU)
HOOKS(Seconds)
template <>
class jsonization<hooked::DequeU>
{
public:
    json::value to_json(const hooked::DequeU& x) const { return "size " + std::to_string(x.size()); }
};
template <>
class jsonization<hooked::ListU>
{
public:
    bool check_json(const json::value& v) const { return v.is_string(); }
    bool from_json(const json::value& v, hooked::ListU& x) const
    {
        if (!v.is_string()) return false;
        x.assign(v.as_string().size(), 7);
        return true;
    }
};
}

namespace typed
{
template <typename X>
struct HookG
{
    using S = hooked::S<X>;
    static X gen(Source& s) { return S::make(static_cast<unsigned>(s.weighted({ 3, 1 }) ? s.below(3000) : s.below(12))); }
    static bool same(const X& a, const X& b) { return S::num(a) == S::num(b); }
    static V to_v(const X& x)
    {
        ++hooked::elements;
        return hooked::encode(S::shape, S::num(x));
    }
    static bool matches(const V& v, const X& x) { return v == hooked::encode(S::shape, S::num(x)); }
    static bool fits(const V& v)
    {
        return hooked::decode(S::shape, v).has_value();
    }
    static X from(const V& v)
    {
        ++hooked::elements;
        return S::make(*hooked::decode(S::shape, v));
    }
};
#define HOOK_G(X) template <> struct G<hooked::X> : HookG<hooked::X> { };
HOOK_G(Member)
HOOK_G(MemberVector)
HOOK_G(Plain)
HOOK_G(PlainMoving)
HOOK_G(Enum)
HOOK_G(EnumMoving)
HOOK_G(StringLike)
HOOK_G(VectorLike)
HOOK_G(MapLike)
HOOK_G(ToString)
HOOK_G(Nullable)
HOOK_G(Range)
HOOK_G(VectorU)
HOOK_G(SetU)
HOOK_G(PairU)
HOOK_G(TupleU)
HOOK_G(Tuple1U)
HOOK_G(MapU)
HOOK_G(MapI)
HOOK_G(OptU)
HOOK_G(VarU)
HOOK_G(ArrU)
HOOK_G(UniqueU)
HOOK_G(SharedU)
HOOK_G(Seconds)
template <>
struct G<hooked::DequeU> : Basic<hooked::DequeU>
{
    using N = Sequence<hooked::DequeU>;
    static hooked::DequeU gen(Source& s) { return N::gen(s); }
    static V to_v(const hooked::DequeU& t) { return V::str("size " + std::to_string(t.size())); }
    static bool fits(const V& v) { return N::fits(v); }
    static hooked::DequeU from(const V& v) { return N::from(v); }
};
template <>
struct G<hooked::ListU> : Basic<hooked::ListU>
{
    using N = Sequence<hooked::ListU>;
    static hooked::ListU gen(Source& s) { return N::gen(s); }
    static V to_v(const hooked::ListU& t) { return N::to_v(t); }
    static bool fits(const V& v) { return v.k == model::Str; }
    static hooked::ListU from(const V& v) { return hooked::ListU(v.s.size(), 7); }
};
} // namespace typed

namespace hooked
{
// members of a struct
template <typename X>
struct Holder
{
    X a {};
    std::vector<X> b;
    std::optional<X> c;
    std::map<string, X> d;
    MEO_JSONIZATION(a, b, MEO_OPT c, MEO_KEY("the d") d);
};
}
namespace typed
{
template <typename X>
struct G<hooked::Holder<X>>
{
    using H = hooked::Holder<X>;
    template <typename T> using GG = G<T>;
    using B = std::vector<X>;
    using C = std::optional<X>;
    using D = std::map<std::string, X>;
    static H gen(Source& s)
    {
        H h;
        h.a = G<X>::gen(s);
        h.b = G<B>::gen(s);
        h.c = G<C>::gen(s);
        h.d = G<D>::gen(s);
        return h;
    }
    static bool same(const H& x, const H& y) { return G<X>::same(x.a, y.a) && G<B>::same(x.b, y.b) && G<C>::same(x.c, y.c) && G<D>::same(x.d, y.d); }
    static V to_v(const H& h) { return V::obj({ { "a", G<X>::to_v(h.a) }, { "b", G<B>::to_v(h.b) }, { "c", G<C>::to_v(h.c) }, { "the d", G<D>::to_v(h.d) } }); }
    static bool matches(const V& v, const H& h) { return v == to_v(h); }
    static bool fits(const V& v)
    {
        return v.k == model::Obj && v.o.count("a") && v.o.count("b") && v.o.count("the d") && G<X>::fits(v.o.at("a")) && G<B>::fits(v.o.at("b")) && G<D>::fits(v.o.at("the d"))
            && (!v.o.count("c") || G<C>::fits(v.o.at("c")));
    }
    static H from(const V& v)
    {
        H h;
        h.a = G<X>::from(v.o.at("a"));
        h.b = G<B>::from(v.o.at("b"));
        h.d = G<D>::from(v.o.at("the d"));
        if (v.o.count("c")) h.c = G<C>::from(v.o.at("c"));
        return h;
    }
};
}

namespace types
{
// json::array and json::object convert the type itself when its JSON is one
#define HOOK_ARRAY(X) template <> inline constexpr bool array_type<hooked::X> = hooked::S<hooked::X>::shape == hooked::ARR; \
    template <> inline constexpr bool object_type<hooked::X> = hooked::S<hooked::X>::shape == hooked::OBJ;
HOOK_ARRAY(Enum)
HOOK_ARRAY(MapLike)
HOOK_ARRAY(VectorLike)
HOOK_ARRAY(MemberVector)
HOOK_ARRAY(Range)
HOOK_ARRAY(VectorU)
HOOK_ARRAY(SetU)
HOOK_ARRAY(PairU)
HOOK_ARRAY(TupleU)
HOOK_ARRAY(Tuple1U)
HOOK_ARRAY(MapU)
HOOK_ARRAY(MapI)
HOOK_ARRAY(ArrU)
template <> inline constexpr bool array_type<hooked::DequeU> = false;
template <> inline constexpr bool array_type<hooked::ListU> = false;

// the conversions call the hooks: as often as there are elements, the moving ones where they can
template <typename T, typename X, const char* const& Name>
void check_p23(Source& s)
{
    using namespace hooked;
    const char* const name = Name;
    reset();
    struct Reset { ~Reset() { reset(); } } reset_at_end;
    T t = G<T>::gen(s);
    elements = 0;
    const V m = G<T>::to_v(t);
    const int n = elements;
    pbt::note(name, model::dump(m));
    pbt::label("elements", static_cast<uint64_t>(n));
    pbt::nontrivial(pbt::hash_bytes(model::dump(m), pbt::hash_bytes(name)));
    if (s.size() > 3 && model::dump(m).size() < 100) pbt::sample(std::string(name) + " " + model::dump(m));
    const auto expect = [&](const char* how, bool ok) {
        TYPED_CHECK(ok, how << " of " << n << " elements called " << calls.show() << " for " << mj::show(m));
        reset();
    };
    const json::value v(t);
    expect("building from an lvalue", calls.to == n && calls.all() == n);
    TYPED_CHECK(mj::to_model(v) == m, mj::show(m) << " became " << mj::show(mj::to_model(v)));
    {
        const json::value w(clone(t));
        expect("building from an rvalue", calls.to + calls.move_to == n && calls.all() == n && (!std::is_same_v<T, X> || (moving<X> ? calls.to : calls.move_to) == 0));
        TYPED_CHECK(w == v, "an rvalue became " << mj::show(mj::to_model(w)));
    }
    TYPED_CHECK(v.is<T>(), mj::show(m) << " is not of its type");
    expect("is()", calls.all() == calls.check && calls.check >= n);
    {
        const T back = v.as<T>();
        expect("as()", calls.from == n && calls.to + calls.move_to + calls.move_from == 0);
        TYPED_CHECK(G<T>::same(back, t), mj::show(m) << " gave " << show(back));
    }
    {
        json::value w = v;
        const T back = std::move(w).template as<T>();
        expect("as() &&", calls.from + calls.move_from == n && calls.to + calls.move_to == 0 && (!std::is_same_v<T, X> || (moving<X> ? calls.from : calls.move_from) == 0));
        TYPED_CHECK(G<T>::same(back, t), mj::show(m) << " moved gave " << show(back));
    }
    if (!n) return;
    // a hook that throws is heard
    const auto boom = [&](const char* how, auto&& f) {
        reset();
        f();
        const int total = calls.all();
        reset();
        TYPED_CHECK(total > 0, how << " called nothing on " << mj::show(m));
        boom_at = static_cast<int>(1 + s.below(static_cast<uint64_t>(total)));
        boom_kind = static_cast<int>(s.below(3));
        bool thrown = false;
        try {
            f();
        }
        catch (const Boom& b) {
            thrown = b.call == boom_at;
        }
        TYPED_CHECK(thrown, how << ": call " << boom_at << " of the hooks threw, but not the operation, on " << mj::show(m));
        TYPED_CHECK(mj::to_model(v) == m && G<T>::matches(m, t), how << ": the operand changed when a hook threw, on " << mj::show(m));
        reset();
    };
    boom("building", [&] { json::value w(t); });
    boom("building from an rvalue", [&] { json::value w(clone(t)); });
    boom("is()", [&] { (void)v.is<T>(); });
    boom("as()", [&] { (void)v.as<T>(); });
    boom("as() &&", [&] {
        json::value w = v;
        (void)std::move(w).template as<T>();
    });
    const json::array in_array { v };
    const json::object in_object { { "k", v } };
    const json::value array_value(in_array), object_value(in_object);
    switch (s.below(5)) {
    case 0: boom("find(position)", [&] { (void)array_value.find<T>(size_t(0)); }); break;
    case 1: boom("find(name)", [&] { (void)object_value.find<T>("k"); }); break;
    case 2: boom("array find", [&] { (void)in_array.find<T>(0); }); break;
    case 3: boom("object find", [&] { (void)in_object.find<T>("k"); }); break;
    default: boom("all()", [&] { (void)array_value.all<T>(), (void)in_object.all<T>(); });
    }
    if constexpr (copyable<T>) {
        const T def = t;
        if (s.flip()) boom("get(name)", [&] { (void)object_value.get("k", def); });
        else boom("get(position)", [&] { (void)array_value.get(size_t(0), def); });
    }
    // containers stay as they were when an element can't be made
    {
        json::array a { 1, "x" };
        json::object o { { "a", 1 } };
        json::value va = a, vo = o;
        const V ma = mj::to_model(va), mo = mj::to_model(vo);
        const auto adding = [&](const char* how, auto&& f) {
            boom(how, [&] {
                // the first, counting run is undone
                const json::array ka = a;
                const json::object ko = o;
                const json::value kva = va, kvo = vo;
                f();
                a = ka, o = ko, va = kva, vo = kvo;
            });
            TYPED_CHECK(mj::to_model(a) == ma && mj::to_model(va) == ma && mj::to_model(o) == mo && mj::to_model(vo) == mo,
                        how << ": the container changed when a hook threw: " << json::value(a).to_string() << " " << json::value(o).to_string() << " " << va.to_string() << " " << vo.to_string() << ", on " << mj::show(m));
        };
        switch (s.below(8)) {
        case 0: adding("array::emplace_back", [&] { a.emplace_back(t); }); break;
        case 1: adding("array::push_back", [&] { a.push_back(json::value(t)); }); break;
        case 2: adding("object::emplace", [&] { o.emplace("k", t); }); break;
        case 3: adding("object::insert", [&] { o.insert("a", t); }); break;
        case 4: adding("value::emplace to an object", [&] { vo.emplace("k", t); }); break;
        case 5: adding("value::emplace to an array", [&] { va.emplace(t); }); break;
        case 6: adding("object |=", [&] { o |= json::object { { "k", t }, { "l", t } }; }); break;
        default: adding("array +=", [&] { a += json::array { json::value(t), json::value(t) }; });
        }
    }
    // from_json that returns false is a refusal, whatever check_json said
    const auto refusal = [&](const char* how, auto&& f) {
        refuse_at = static_cast<int>(1 + s.below(static_cast<uint64_t>(n)));
        bool thrown = false;
        try {
            f();
        }
        catch (const json::exception& e) {
            thrown = *e.what();
        }
        TYPED_CHECK(thrown, how << ": from_json returned false at element " << refuse_at << ", but the conversion was not refused, on " << mj::show(m));
        TYPED_CHECK(mj::to_model(v) == m, how << ": the operand changed when from_json returned false, on " << mj::show(m));
        reset();
    };
    refusal("as()", [&] { (void)v.as<T>(); });
    refusal("as() &&", [&] {
        json::value w = v;
        (void)std::move(w).template as<T>();
    });
    if constexpr (!is_opt<T>) refusal("a cast", [&] { (void)static_cast<T>(v); });
    // and still works
    TYPED_CHECK(G<T>::same(v.as<T>(), t) && json::value(t) == v, "after refusals " << mj::show(m) << " converts differently");
}

struct HookCase
{
    std::string name;
    void (*round_trip)(Source&);
    void (*conversion)(Source&);
    void (*hooks)(Source&);
};
inline std::vector<HookCase>& hook_registry()
{
    static std::vector<HookCase> r;
    return r;
}
template <typename T, typename X, const char* const& Name>
struct RegisterHook
{
    RegisterHook() { hook_registry().push_back({ Name, &check_p07<T, Name>, &check_p08<T, Name>, &check_p23<T, X, Name> }); }
};
#define HOOK_TYPE(X, id, ...)                                                                     \
    static const char* const TYPE_CAT(type_name_##id##_, __LINE__) = #__VA_ARGS__;                \
    static const RegisterHook<__VA_ARGS__, X, TYPE_CAT(type_name_##id##_, __LINE__)> TYPE_CAT(reg_##id##_, __LINE__) {};
// positions of X
#define HOOK_FEW(X)                                   \
    HOOK_TYPE(X, 1, X)                                \
    HOOK_TYPE(X, 2, std::vector<X>)                   \
    HOOK_TYPE(X, 3, std::map<std::string, X>)
#define HOOK_SOME(X)                                  \
    HOOK_FEW(X)                                       \
    HOOK_TYPE(X, 4, std::optional<X>)                 \
    HOOK_TYPE(X, 5, std::tuple<X, std::shared_ptr<X>, bool>) \
    HOOK_TYPE(X, 6, std::variant<bool, X>)
#define HOOK_ALL(X)                                   \
    HOOK_SOME(X)                                      \
    HOOK_TYPE(X, 7, std::unique_ptr<X>)               \
    HOOK_TYPE(X, 8, std::array<X, 2>)                 \
    HOOK_TYPE(X, 9, std::pair<std::string, X>)        \
    HOOK_TYPE(X, 10, std::list<X>)                    \
    HOOK_TYPE(X, 11, std::tuple<X>)                   \
    HOOK_TYPE(X, 12, std::variant<X, std::vector<X>>) \
    HOOK_TYPE(X, 13, std::vector<std::map<std::string, std::optional<X>>>) \
    HOOK_TYPE(X, 14, Holder<X>)
} // namespace types
