// Cost is proportional to the data, and moves do not copy.
#define PBT_IMPLEMENT
#include <deque>
#include <list>
#include <unordered_map>

#include "typed.hpp"

namespace pbt
{
const char* const property_id = "P21";
using model::V;

struct Cost
{
    double calls = 0, bytes = 0;
};
template <typename F>
static Cost cost_of(F&& f)
{
    const auto c = g_alloc.calls, b = g_alloc.bytes;
    f();
    return { static_cast<double>(g_alloc.calls - c), static_cast<double>(g_alloc.bytes - b) };
}

}
#include "plan.hpp"

namespace pbt
{
// ------------------------------------------------------------------ what moving keeps
// Where the text of the strings and the elements of the arrays are
static void places(const json::value& v, std::vector<const void*>& out)
{
    if (v.is_string() && v.as_string_view().size() > 15) out.push_back(v.as_string_view().data());
    else if (v.is_array()) {
        for (const json::value& x : v.as_array()) {
            out.push_back(&x);
            places(x, out);
        }
    }
    else if (v.is_object()) {
        for (const auto& [k, x] : v.as_object()) {
            out.push_back(&k);
            out.push_back(&x);
            places(x, out);
        }
    }
}
// of the parts below the elements only
static void inner_places(const json::value& v, std::vector<const void*>& out)
{
    if (v.is_array()) {
        for (const json::value& x : v.as_array()) places(x, out);
    }
    else if (v.is_object()) {
        for (const auto& [k, x] : v.as_object()) places(x, out);
    }
    else places(v, out);
}
static std::vector<const void*> all_places(const json::value& v)
{
    std::vector<const void*> r;
    places(v, r);
    return r;
}
static std::vector<const void*> below(const json::value& v)
{
    std::vector<const void*> r;
    inner_places(v, r);
    return r;
}

// f turns the values made into one; what it may ask for does not depend on their content
template <typename F>
static void moved(const char* name, const json::value& model, double most_calls, bool elements_stay, F&& f)
{
    json::value v = model;
    const std::vector<const void*> before = elements_stay ? all_places(v) : below(v);
    json::value got;
    Cost c;
    {
        const auto calls = g_alloc.calls;
        got = f(std::move(v));
        c.calls = static_cast<double>(g_alloc.calls - calls);
    }
    PBT_CHECK(got == model, name << " changes the value: " << printable(got.to_string()) << " instead of " << printable(model.to_string()));
    PBT_CHECK((elements_stay ? all_places(got) : below(got)) == before, name << " copies elements of " << printable(model.to_string()));
    PBT_CHECK(c.calls <= most_calls, name << " allocates " << c.calls << " times for " << printable(model.to_string()));
}

static void moves(const json::value& v)
{
    moved("move construction", v, 0, true, [](json::value&& x) { return json::value(std::move(x)); });
    moved("move assignment", v, 1, true, [](json::value&& x) {
        json::value y("something else that is long");
        y = std::move(x);
        return y;
    });
    moved("swap", v, 0, true, [](json::value&& x) {
        json::value y;
        std::swap(x, y);
        return y;
    });
    moved("returning", v, 0, true, [](json::value&& x) {
        json::value y = std::move(x);
        return y;
    });
    moved("moving into an optional", v, 0, true, [](json::value&& x) {
        std::optional<json::value> o(std::move(x));
        return std::move(*o);
    });
    const double some = 8;
    moved("push_back", v, some, false, [](json::value&& x) {
        json::array a;
        a.push_back(std::move(x));
        return std::move(a[0]);
    });
    moved("emplace_back", v, some, false, [](json::value&& x) {
        json::array a;
        a.emplace_back(std::move(x));
        return std::move(a[0]);
    });
    moved("emplace", v, some, false, [](json::value&& x) {
        json::object o;
        o.emplace("k", std::move(x));
        return std::move(o["k"]);
    });
    moved("insert", v, some, false, [](json::value&& x) {
        json::object o;
        o.insert("k", std::move(x));
        return std::move(o["k"]);
    });
    moved("assignment to a member", v, some, false, [](json::value&& x) {
        json::object o;
        o["k"] = std::move(x);
        return std::move(o["k"]);
    });
    moved("value::emplace", v, some, false, [](json::value&& x) {
        json::value o;
        o.emplace("k", std::move(x));
        return std::move(o["k"]);
    });
    if (v.is_array()) {
        const double n = static_cast<double>(v.as_array().size());
        const double grow = 10 + 2 * std::log2(n + 1);
        moved("moving an array out and in", v, 2, true, [](json::value&& x) {
            json::array a = std::move(x.as_array());
            json::array b(std::move(a));
            json::array c;
            c = std::move(b);
            return json::value(std::move(c));
        });
        moved("building from an rvalue vector of values", v, grow, false, [](json::value&& x) {
            std::vector<json::value> l(std::make_move_iterator(x.as_array().begin()), std::make_move_iterator(x.as_array().end()));
            return json::value(std::move(l));
        });
        moved("building an array from an rvalue vector", v, grow, true, [](json::value&& x) {
            json::array::raw_array raw;
            json::array a = std::move(x.as_array());
            std::swap(a, a);
            return json::value(json::array(std::move(a)));
        });
        moved("building from an rvalue list of values", v, grow + n, false, [](json::value&& x) {
            std::list<json::value> l;
            for (json::value& e : x.as_array()) l.push_back(std::move(e));
            return json::value(std::move(l));
        });
        moved("building from an rvalue deque of values", v, grow + n, false, [](json::value&& x) {
            std::deque<json::value> l;
            for (json::value& e : x.as_array()) l.push_back(std::move(e));
            return json::value(json::array(std::move(l)));
        });
        moved("appending an rvalue array", v, grow, false, [](json::value&& x) {
            json::array a;
            a += std::move(x.as_array());
            return json::value(std::move(a));
        });
        moved("appending an rvalue array to a value", v, grow, false, [](json::value&& x) {
            json::value a { json::array() };
            a += std::move(x.as_array());
            return a;
        });
        moved("adding rvalue arrays", v, grow, false, [](json::value&& x) { return json::value(json::array() + std::move(x.as_array())); });
        moved("adding to an rvalue array", v, grow, false, [](json::value&& x) { return json::value(std::move(x.as_array()) + json::array()); });
        moved("adding an array to an rvalue", v, grow, false, [](json::value&& x) { return std::move(x) + json::array(); });
    }
    if (v.is_object()) {
        const double n = static_cast<double>(v.as_object().size());
        moved("moving an object out and in", v, 2, true, [](json::value&& x) {
            json::object a = std::move(x.as_object());
            json::object b(std::move(a));
            json::object c;
            c = std::move(b);
            return json::value(std::move(c));
        });
        moved("building from an rvalue map of values", v, 10 + 4 * n, false, [](json::value&& x) {
            std::map<std::string, json::value> l;
            for (auto& [k, e] : x.as_object()) l.emplace(k, std::move(e));
            return json::value(std::move(l));
        });
        moved("building from an rvalue unordered map of values", v, 10 + 5 * n, false, [](json::value&& x) {
            std::unordered_map<std::string, json::value> l;
            for (auto& [k, e] : x.as_object()) l.emplace(k, std::move(e));
            return json::value(json::object(std::move(l)));
        });
        moved("merging an rvalue object", v, 10 + 3 * n, false, [](json::value&& x) {
            json::object a;
            a |= std::move(x.as_object());
            return json::value(std::move(a));
        });
        moved("merging an rvalue object into a value", v, 10 + 3 * n, false, [](json::value&& x) {
            json::value a { json::object() };
            a |= std::move(x.as_object());
            return a;
        });
        moved("union of rvalues", v, 10 + 3 * n, false, [](json::value&& x) { return json::value(json::object() | std::move(x.as_object())); });
        moved("union with an rvalue", v, 10 + 3 * n, false, [](json::value&& x) { return json::value(std::move(x.as_object()) | json::object()); });
        moved("union of a value that goes", v, 10 + 3 * n, false, [](json::value&& x) { return std::move(x) | json::object(); });
    }
    if (v.is_string() && v.as_string_view().size() > 15) {
        std::string t = v.as_string();
        const void* p = t.data();
        const json::value made(std::move(t));
        PBT_CHECK(made.as_string_view().data() == p, "a value made of an rvalue string copies it");
        std::vector<std::string> l { v.as_string(), "short", v.as_string() };
        p = l[2].data();
        const json::value list(std::move(l));
        PBT_CHECK(list.at(2).as_string_view().data() == p, "a value made of an rvalue vector of strings copies them");
        std::map<std::string, std::string> m { { "k", v.as_string() } };
        p = m["k"].data();
        const json::value map(std::move(m));
        PBT_CHECK(map.at("k").as_string_view().data() == p, "a value made of an rvalue map of strings copies them");
        std::optional<std::string> o(v.as_string());
        p = o->data();
        const json::value opt(std::move(o));
        PBT_CHECK(opt.as_string_view().data() == p, "a value made of an rvalue optional string copies it");
        std::tuple<int, std::string> tp(1, v.as_string());
        p = std::get<1>(tp).data();
        const json::value tup(std::move(tp));
        PBT_CHECK(tup.at(1).as_string_view().data() == p, "a value made of an rvalue tuple copies its string");
        std::variant<int, std::string> vr(v.as_string());
        p = std::get<1>(vr).data();
        const json::value var(std::move(vr));
        PBT_CHECK(var.as_string_view().data() == p, "a value made of an rvalue variant copies its string");
        std::array<std::string, 2> ar { "a", v.as_string() };
        p = ar[1].data();
        const json::value arr(std::move(ar));
        PBT_CHECK(arr.at(1).as_string_view().data() == p, "a value made of an rvalue array of strings copies them");
        std::vector<std::vector<std::string>> ll { { v.as_string() } };
        p = ll[0][0].data();
        const json::value lists(std::move(ll));
        PBT_CHECK(lists.at(0).at(0).as_string_view().data() == p, "a value made of rvalue nested vectors copies their strings");
        std::unique_ptr<std::string> up = std::make_unique<std::string>(v.as_string());
        p = up->data();
        const json::value ptr(std::move(up));
        PBT_CHECK(ptr.as_string_view().data() == p, "a value made of an rvalue unique_ptr copies its string");
    }
}

static double worst[3];
void property(Source& s)
{
    const Plan p = gen_plan(s);
    const size_t n = 60 + s.below(200);
    const size_t factor = 6;
    const std::vector<Measured> small = measure(p, n), large = measure(p, n * factor);
    PBT_CHECK(small.size() == large.size(), "what applies at size " << n << " and " << n * factor << " differs");
    for (size_t i = 0; i < small.size(); ++i) {
        const Measured &a = small[i], &b = large[i];
        
        // per unit of size, with room for what vectors and strings keep in reserve
        const double sb = a.cost.bytes / (a.size + 600), lb = b.cost.bytes / (b.size + 600);
        const double sc = a.cost.calls / (a.size + 600), lc = b.cost.calls / (b.size + 600);
        if (getenv("P21_SHOW")) fprintf(stderr, "%-20s %-25s n %4zu bytes %.3f -> %.3f calls %.4f -> %.4f\n", shapes[p.shape], a.name.c_str(), n, sb, lb, sc, lc);
        worst[0] = std::max(worst[0], lb);
        worst[1] = std::max(worst[1], lc);
        worst[2] = std::max(worst[2], lb / (sb + 0.5));
        PBT_CHECK(lb <= 2.2 * sb + 3, a.name << " of a document (" << shapes[p.shape] << ") allocates " << a.cost.bytes << " bytes for size " << a.size << ", but " << b.cost.bytes << " for size " << b.size);
        PBT_CHECK(lc <= 2.2 * sc + 0.02, a.name << " of a document (" << shapes[p.shape] << ") allocates " << a.cost.calls << " times for size " << a.size << ", but " << b.cost.calls << " for size " << b.size);
        PBT_CHECK(lb <= 25, a.name << " of a document (" << shapes[p.shape] << ") allocates " << b.cost.bytes << " bytes for size " << b.size);
        PBT_CHECK(lc <= 0.3, a.name << " of a document (" << shapes[p.shape] << ") allocates " << b.cost.calls << " times for size " << b.size);
    }
    label(std::string("documents: ") + shapes[p.shape]);
    const std::string text = make(p, 4);
    nontrivial(hash_bytes(text, n));
    if (text.size() < 200) sample(std::string(shapes[p.shape]) + " of " + std::to_string(n) + " units: " + printable(text));
    // moves
    for (size_t k = 0; k < 3; ++k) {
        V v = k == 0 ? model::gen_any(s, 20, 4) : model::gen_root(s, 25, 4);
        if (k == 2) v = V::str(std::string(16 + s.below(40), 'm'));
        const json::value j = mj::build(v);
        moves(j);
    }
    label("values moved in all ways", 3);
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
