// Values, arrays and objects in the hands of the standard library: every program is a template that
// runs on the library's types and on std::vector / std::map of the model, and must tell the same.
#define PBT_IMPLEMENT
#include <algorithm>
#include <any>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <random>
#include <unordered_map>
#include <variant>

#include "mj.hpp"

namespace pbt
{
const char* const property_id = "P25";
using model::V;

static std::string text(const json::value& v) { return v.to_string(); }
static std::string text(const json::array& v) { return v.to_string(); }
static std::string text(const json::object& v) { return v.to_string(); }
static std::string text(const V& v) { return model::dump(v); }
static bool is_num(const json::value& v) { return v.is_number(); }
static bool is_num(const V& v) { return v.k == model::Num; }
static bool is_list(const json::value& v) { return v.is_array(); }
static bool is_list(const V& v) { return v.k == model::Arr; }

template <typename E>
static E make(const V& v)
{
    if constexpr (std::is_same_v<E, V>) return v;
    else return mj::build(v);
}
template <typename E>
struct Less
{
    bool operator()(const E& a, const E& b) const { return text(a) < text(b); }
};
template <typename E>
struct Shorter
{
    bool operator()(const E& a, const E& b) const { return text(a).size() < text(b).size(); }
};

// what a program was given
struct Step
{
    size_t op = 0, i = 0, j = 0, k = 0;
    V v, w;
    uint64_t seed = 0;
};
using Told = std::vector<std::string>;
static std::string join(const Told& t)
{
    std::string r;
    for (auto& x : t) r += x + " ";
    return r;
}

template <typename It>
static void tell(Told& t, It b, It e)
{
    for (; b != e; ++b) t.push_back(text(*b));
}

// ------------------------------------------------------------------ sequences
// C is json::array, std::vector<V>, and std::vector / std::deque of json::value
static const char* const seq_ops[] = { "push_back", "emplace_back", "back_inserter", "erase", "erase remove_if", "clear", "sort", "stable_sort by length", "partial_sort", "nth_element", "reverse", "rotate", "unique", "partition", "stable_partition", "shuffle", "swap_ranges",
    "fill", "fill_n", "generate", "transform in place", "replace", "copy", "copy_backward", "move", "move_backward", "transform to another", "find and count", "search", "compare ranges", "extremes", "bounds", "inplace_merge", "heap", "permutations", "accumulate", "iterators", "reverse iterators", "constant iterators", "set operations", "iter_swap", "swap", "copy and assign", "self operations", "adjacent", "rotate_copy", "merge", "for_each" };

template <typename C>
static void resize_down(C& c, size_t n)
{
    while (c.size() > n) c.erase(c.end() - 1);
}

template <typename C>
static Told seq(C& c, const Step& st)
{
    using E = typename C::value_type;
    using D = typename C::iterator::difference_type;
    Told t;
    const size_t n = c.size();
    size_t a = n ? st.i % (n + 1) : 0, b = n ? st.j % (n + 1) : 0;
    if (a > b) std::swap(a, b);
    const auto at = [&](size_t i) { return c.begin() + static_cast<D>(i); };
    const auto pos = [&](auto it) { t.push_back(std::to_string(it - c.begin())); };
    const E v = make<E>(st.v), w = make<E>(st.w);
    switch (st.op) {
    case 0: c.push_back(v); break;
    case 1: c.emplace_back(make<E>(st.w)); break;
    case 2: {
        const std::vector<E> more { v, w, v };
        std::copy(more.begin(), more.end(), std::back_inserter(c));
        auto out = std::back_inserter(c);
        *out++ = w;
        break;
    }
    case 3:
        if (n) c.erase(at(st.i % n));
        break;
    case 4: {
        const auto e = std::remove_if(c.begin(), c.end(), [](const E& x) { return is_num(x); });
        resize_down(c, static_cast<size_t>(e - c.begin()));
        break;
    }
    case 5:
        if (st.k % 3 == 0) c.clear();
        break;
    case 6: std::sort(c.begin(), c.end(), Less<E>()); break;
    case 7: std::stable_sort(c.begin(), c.end(), Shorter<E>()); break;
    case 8: std::partial_sort(c.begin(), at(b), c.end(), Less<E>()); break;
    case 9:
        if (n) std::nth_element(c.begin(), at(st.i % n), c.end(), Less<E>());
        break;
    case 10: std::reverse(at(a), at(b)); break;
    case 11: pos(std::rotate(c.begin(), at(a), c.end())); break;
    case 12: {
        const auto e = std::unique(c.begin(), c.end());
        resize_down(c, static_cast<size_t>(e - c.begin()));
        break;
    }
    case 13: pos(std::partition(c.begin(), c.end(), [](const E& x) { return is_num(x); })); break;
    case 14: pos(std::stable_partition(at(a), c.end(), [](const E& x) { return is_list(x); })); break;
    case 15: {
        std::mt19937 g(static_cast<unsigned>(st.seed));
        std::shuffle(c.begin(), c.end(), g);
        break;
    }
    case 16: std::swap_ranges(c.begin(), at(n / 2), at(n - n / 2)); break;
    case 17: std::fill(at(a), at(b), v); break;
    case 18: std::fill_n(at(a), b - a, w); break;
    case 19: {
        int k = 0;
        std::generate(at(a), at(b), [&] { return ++k % 2 ? v : w; });
        break;
    }
    case 20: std::transform(at(a), at(b), at(a), [&](const E& x) { return is_num(x) ? v : x; }); break;
    case 21:
        std::replace(c.begin(), c.end(), v, w);
        std::replace_if(c.begin(), c.end(), [](const E& x) { return is_list(x); }, v);
        break;
    case 22:
        if (a < b) std::copy(at(b), c.end(), at(a));
        break;
    case 23:
        if (a < b) std::copy_backward(c.begin(), at(a), at(b));
        break;
    case 24:
        // what is left behind is overwritten: it is not specified
        if (a == b) break;
        std::move(at(b), c.end(), at(a));
        std::fill(at(std::max(b, a + n - b)), c.end(), v);
        break;
    case 25:
        if (a == b) break;
        std::move_backward(c.begin(), at(a), at(b));
        std::fill(c.begin(), at(std::min(a, b - a)), w);
        break;
    case 26: {
        std::vector<std::string> s;
        std::transform(c.begin(), c.end(), std::back_inserter(s), [](const E& x) { return text(x); });
        t = s;
        break;
    }
    case 27:
        pos(std::find(c.begin(), c.end(), v));
        pos(std::find_if_not(at(a), c.end(), [](const E& x) { return is_num(x); }));
        t.push_back(std::to_string(std::count(c.begin(), c.end(), w)));
        t.push_back(std::to_string(std::all_of(at(a), at(b), [](const E& x) { return is_list(x); })));
        break;
    case 28: {
        const std::vector<E> sub(at(a), at(b));
        pos(std::search(c.begin(), c.end(), sub.begin(), sub.end()));
        pos(std::find_end(c.begin(), c.end(), sub.begin(), sub.end()));
        pos(std::find_first_of(c.begin(), c.end(), sub.begin(), sub.end()));
        break;
    }
    case 29: {
        const C d = c;
        t.push_back(std::to_string(std::equal(c.begin(), c.end(), d.begin(), d.end())));
        t.push_back(std::to_string(std::lexicographical_compare(at(a), c.end(), d.begin(), d.end(), Less<E>())));
        const auto m = std::mismatch(at(a), c.end(), d.begin());
        pos(m.first);
        t.push_back(std::to_string(std::is_permutation(c.rbegin(), c.rend(), d.begin())));
        t.push_back(std::to_string(c == d) + std::to_string(c != d));
        break;
    }
    case 30:
        pos(std::min_element(c.begin(), c.end(), Less<E>()));
        pos(std::max_element(c.begin(), c.end(), Less<E>()));
        t.push_back(text(std::max(v, w, Less<E>())));
        break;
    case 31:
        std::sort(c.begin(), c.end(), Less<E>());
        pos(std::lower_bound(c.begin(), c.end(), v, Less<E>()));
        pos(std::upper_bound(c.begin(), c.end(), w, Less<E>()));
        t.push_back(std::to_string(std::binary_search(c.begin(), c.end(), v, Less<E>())));
        t.push_back(std::to_string(std::is_sorted(c.begin(), c.end(), Less<E>())));
        break;
    case 32:
        std::sort(c.begin(), at(a), Less<E>());
        std::sort(at(a), c.end(), Less<E>());
        std::inplace_merge(c.begin(), at(a), c.end(), Less<E>());
        break;
    case 33:
        std::make_heap(c.begin(), c.end(), Less<E>());
        c.push_back(v);
        std::push_heap(c.begin(), c.end(), Less<E>());
        std::pop_heap(c.begin(), c.end(), Less<E>());
        t.push_back(text(*(c.end() - 1)));
        c.erase(c.end() - 1);
        std::sort_heap(c.begin(), c.end(), Less<E>());
        break;
    case 34:
        for (size_t i = 0; i < st.k % 5; ++i) t.push_back(std::to_string(std::next_permutation(c.begin(), c.end(), Less<E>())));
        if (st.k % 2) std::prev_permutation(c.begin(), c.end(), Less<E>());
        break;
    case 35: t.push_back(std::accumulate(c.begin(), c.end(), std::string("+"), [](std::string s, const E& x) { return std::move(s) + text(x); })); break;
    case 36: {
        t.push_back(std::to_string(std::distance(at(a), c.end())));
        t.push_back(std::to_string(std::size(c)) + std::to_string(std::empty(c)));
        if (n) {
            auto it = std::next(c.begin(), static_cast<D>(st.i % n));
            t.push_back(text(*it));
            t.push_back(text(it[0]));
            t.push_back(text(*std::prev(c.end())));
            t.push_back(std::to_string(it < c.end()) + std::to_string(it >= c.begin()));
            *it = w;
            std::advance(it, -(it - c.begin()));
            t.push_back(text(*it));
        }
        break;
    }
    case 37:
        tell(t, c.rbegin(), c.rend());
        tell(t, std::rbegin(c), std::rend(c));
        if (n) {
            *c.rbegin() = v;
            const auto f = std::find(c.rbegin(), c.rend(), v);
            pos(f.base());
        }
        std::sort(c.rbegin(), c.rend(), Less<E>());
        break;
    case 38: {
        const C& d = c;
        tell(t, d.begin(), d.end());
        tell(t, c.cbegin(), c.cend());
        tell(t, d.rbegin(), d.rend());
        tell(t, c.crbegin(), c.crend());
        tell(t, std::cbegin(c), std::cend(c));
        const typename C::const_iterator k = c.begin();
        t.push_back(std::to_string(k == d.begin()) + std::to_string(d.end() - k));
        break;
    }
    case 39: {
        std::vector<E> x(c.begin(), c.end()), y { v, w };
        std::sort(x.begin(), x.end(), Less<E>());
        std::sort(y.begin(), y.end(), Less<E>());
        C u;
        std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(u), Less<E>());
        C d;
        std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d), Less<E>());
        tell(t, d.begin(), d.end());
        if (st.k % 2) c = std::move(u);
        break;
    }
    case 40:
        if (n) std::iter_swap(at(st.i % n), at(st.j % n));
        break;
    case 41: {
        C d;
        d.push_back(v);
        std::swap(c, d);
        tell(t, c.begin(), c.end());
        using std::swap;
        if (st.k % 2) swap(c, d);
        else d.push_back(w);
        if (st.k % 3 == 0) c = d;
        break;
    }
    case 42: {
        C d(c), e;
        e = d;
        d.push_back(v);
        const C f = std::move(e);
        t.push_back(std::to_string(f == c));
        if (st.k % 2) c = std::move(d);
        break;
    }
    case 43: {
        c = *&c;
        if (n) {
            c.push_back(c[st.i % n]);
            *at(st.j % n) = *at(st.i % n);
        }
        break;
    }
    case 44: {
        const auto f = std::adjacent_find(c.begin(), c.end());
        pos(f);
        t.push_back(std::to_string(std::count_if(c.begin(), c.end(), [&](const E& x) { return x == v || x != w; })));
        break;
    }
    case 45: {
        C d;
        std::rotate_copy(c.begin(), at(a), c.end(), std::back_inserter(d));
        std::reverse_copy(c.begin(), c.end(), std::back_inserter(d));
        std::unique_copy(c.begin(), c.end(), std::back_inserter(d));
        std::copy_if(c.begin(), c.end(), std::back_inserter(d), [](const E& x) { return !is_num(x); });
        tell(t, d.begin(), d.end());
        if (d.size() < 60) c = d;
        break;
    }
    case 46: {
        C d;
        std::merge(std::make_move_iterator(c.begin()), std::make_move_iterator(at(a)), std::make_move_iterator(at(a)), std::make_move_iterator(c.end()), std::back_inserter(d), Less<E>());
        c = std::move(d);
        break;
    }
    default: {
        size_t i = 0;
        std::for_each(c.begin(), c.end(), [&](E& x) {
            if (i++ % 3 == 1) std::swap(x, *c.begin());
        });
        for (E& x : c) {
            if (is_list(x)) x = v;
        }
        for (const E& x : std::as_const(c)) t.push_back(text(x));
    }
    }
    return t;
}

// ------------------------------------------------------------------ maps
static const char* const map_ops[] = { "bindings", "mutation", "find_if", "erase while iterating", "transform", "accumulate", "compare", "copy", "swap", "count_if", "partition_copy", "max_element", "emplace", "erase key", "constant iterators", "iterator steps", "self assignment", "clear" };
template <typename M>
static Told map(M& m, const Step& st)
{
    using E = typename M::mapped_type;
    using P = typename M::value_type;
    Told t;
    const E v = make<E>(st.v), w = make<E>(st.w);
    const std::string key = st.v.k == model::Str ? st.v.s : "k" + std::to_string(st.k % 9);
    switch (st.op) {
    case 0:
        for (auto& [k, x] : m) t.push_back(k + text(x));
        for (const auto& [k, x] : std::as_const(m)) t.push_back(k + text(x));
        for (auto [k, x] : m) t.push_back(k + text(x));
        break;
    case 1: {
        size_t i = 0;
        for (auto& [k, x] : m) {
            if (i++ % 2 == st.k % 2) x = w;
        }
        std::for_each(m.begin(), m.end(), [&](P& p) {
            if (is_num(p.second)) p.second = v;
        });
        break;
    }
    case 2: {
        const auto it = std::find_if(m.begin(), m.end(), [&](const P& p) { return p.second == v || is_num(p.second); });
        t.push_back(std::to_string(std::distance(m.begin(), it)));
        if (it != m.end()) {
            t.push_back(it->first + text(it->second));
            it->second = w;
        }
        break;
    }
    case 3: {
        // erase one, then start again: json::object::erase() does not return the next
        std::vector<std::string> gone;
        for (const auto& [k, x] : m) {
            if (is_num(x)) gone.push_back(k);
        }
        for (const std::string& k : gone) {
            const auto it = std::find_if(m.begin(), m.end(), [&](const P& p) { return p.first == k; });
            const auto after = std::next(it);
            const bool last = after == m.end();
            const std::string next = last ? "" : after->first;
            m.erase(it);
            t.push_back(std::to_string(last ? after == m.end() : after->first == next));
        }
        break;
    }
    case 4: {
        std::vector<E> l;
        std::transform(m.begin(), m.end(), std::back_inserter(l), [](const P& p) { return p.second; });
        tell(t, l.begin(), l.end());
        break;
    }
    case 5: t.push_back(std::accumulate(m.begin(), m.end(), std::string(), [](std::string s, const P& p) { return s + p.first + text(p.second); })); break;
    case 6: {
        const M n = m;
        t.push_back(std::to_string(std::equal(m.begin(), m.end(), n.begin(), n.end())) + std::to_string(m == n) + std::to_string(m != n));
        const auto mm = std::mismatch(m.begin(), m.end(), n.begin());
        t.push_back(std::to_string(mm.first == m.end()));
        break;
    }
    case 7: {
        const std::vector<std::pair<std::string, E>> l(m.begin(), m.end());
        for (auto& [k, x] : l) t.push_back(k + text(x));
        const std::map<std::string, E> o(m.begin(), m.end());
        t.push_back(std::to_string(o.size()));
        break;
    }
    case 8: {
        M n;
        n[key] = v;
        std::swap(m, n);
        if (st.k % 3) std::swap(m, n);
        else m.emplace("q", w);
        for (auto& [k, x] : n) t.push_back(k + text(x));
        break;
    }
    case 9: t.push_back(std::to_string(std::count_if(m.begin(), m.end(), [](const P& p) { return is_list(p.second); }))); break;
    case 10: {
        std::vector<std::pair<std::string, E>> x, y;
        std::partition_copy(m.begin(), m.end(), std::back_inserter(x), std::back_inserter(y), [](const P& p) { return is_num(p.second); });
        t.push_back(std::to_string(x.size()) + "/" + std::to_string(y.size()));
        break;
    }
    case 11: {
        const auto it = std::max_element(m.begin(), m.end(), [](const P& a, const P& b) { return text(a.second) < text(b.second); });
        if (it != m.end()) t.push_back(it->first);
        break;
    }
    case 12:
        m[key] = w;
        m[key + "2"] = v;
        break;
    case 13: t.push_back(std::to_string(m.erase(key))); break;
    case 14: {
        const M& c = m;
        const typename M::const_iterator k = m.begin();
        t.push_back(std::to_string(k == c.begin()) + std::to_string(m.cend() == c.end()));
        for (auto it = m.cbegin(); it != m.cend(); ++it) t.push_back(it->first + text(it->second));
        for (auto it = c.end(); it != c.begin();) {
            --it;
            t.push_back(it->first);
        }
        for (auto it = std::make_reverse_iterator(m.end()); it != std::make_reverse_iterator(m.begin()); ++it) t.push_back(it->first);
        break;
    }
    case 15:
        t.push_back(std::to_string(std::distance(m.begin(), m.end())) + std::to_string(std::size(m)) + std::to_string(std::empty(m)));
        if (!m.empty()) {
            auto it = m.begin();
            std::advance(it, st.i % m.size());
            t.push_back(it->first + text((*it).second));
            it->second = v;
            m.erase(it);
        }
        break;
    case 16: {
        m = *&m;
        M n = std::move(m);
        m = std::move(n);
        break;
    }
    default:
        if (st.k % 4 == 0) m.clear();
    }
    return t;
}

// ------------------------------------------------------------------ values as elements of anything
static const char* const held_ops[] = { "vector insert and erase", "deque", "list", "forward_list", "map", "unordered_map", "set by text", "multimap", "optional", "any", "variant", "pair and tuple", "array", "shared_ptr", "vector growth", "vector of arrays", "priority queue", "exchange", "initializer list" };
template <typename E>
static Told held(const std::vector<V>& vs, const Step& st)
{
    Told t;
    std::vector<E> l;
    for (const V& v : vs) l.push_back(make<E>(v));
    const E v = make<E>(st.v), w = make<E>(st.w);
    const size_t n = l.size();
    switch (st.op) {
    case 0: {
        l.insert(l.begin() + static_cast<long>(st.i % (n + 1)), v);
        l.insert(l.end(), l.size() % 3, w);
        l.insert(l.begin(), { v, w });
        l.erase(l.begin() + static_cast<long>(st.j % l.size()));
        l.emplace(l.begin(), w);
        l.resize(l.size() + 2);
        l.resize(std::max<size_t>(l.size() / 2, 1), v);
        l.assign(l.rbegin(), l.rend());
        l.shrink_to_fit();
        l.pop_back();
        tell(t, l.begin(), l.end());
        break;
    }
    case 1: {
        std::deque<E> d(l.begin(), l.end());
        d.push_front(v);
        d.push_back(w);
        d.insert(d.begin() + static_cast<long>(st.i % d.size()), v);
        d.erase(d.begin() + static_cast<long>(st.j % d.size()));
        d.pop_front();
        std::sort(d.begin(), d.end(), Less<E>());
        tell(t, d.begin(), d.end());
        break;
    }
    case 2: {
        std::list<E> d(l.begin(), l.end()), e { v, w };
        d.splice(d.begin(), e);
        d.sort(Less<E>());
        d.unique();
        d.remove(v);
        d.reverse();
        e.push_back(w);
        d.merge(e, Less<E>());
        tell(t, d.begin(), d.end());
        break;
    }
    case 3: {
        std::forward_list<E> d(l.begin(), l.end());
        d.push_front(v);
        d.sort(Less<E>());
        d.remove_if([](const E& x) { return is_num(x); });
        d.reverse();
        tell(t, d.begin(), d.end());
        break;
    }
    case 4: {
        std::map<int, E> d;
        for (size_t i = 0; i < n; ++i) d[static_cast<int>((i * 7 + st.i) % 11)] = l[i];
        d.insert_or_assign(3, v);
        d.try_emplace(3, w);
        d.emplace(4, w);
        auto node = d.extract(d.begin());
        node.key() = 50;
        d.insert(std::move(node));
        for (auto& [k, x] : d) t.push_back(std::to_string(k) + text(x));
        break;
    }
    case 5: {
        std::unordered_map<std::string, E> d;
        for (size_t i = 0; i < n * 3; ++i) d.emplace(std::to_string(i), l[i % n]);
        d["x"] = v;
        d.rehash(500);
        for (size_t i = 0; i < n; i += 2) d.erase(std::to_string(i));
        std::map<std::string, E> sorted(std::make_move_iterator(d.begin()), std::make_move_iterator(d.end()));
        for (auto& [k, x] : sorted) t.push_back(k + text(x));
        break;
    }
    case 6: {
        std::set<E, Less<E>> d(l.begin(), l.end());
        t.push_back(std::to_string(d.insert(v).second) + std::to_string(d.count(w)));
        d.erase(w);
        tell(t, d.begin(), d.end());
        break;
    }
    case 7: {
        std::multimap<std::string, E> d;
        for (size_t i = 0; i < n; ++i) d.emplace(std::to_string(i % 3), l[i]);
        const auto r = d.equal_range("1");
        for (auto it = r.first; it != r.second; ++it) t.push_back(text(it->second));
        break;
    }
    case 8: {
        std::optional<E> o;
        o = v;
        std::optional<E> p = std::move(o);
        o.emplace(w);
        std::swap(o, p);
        t.push_back(text(*o) + text(p.value()) + std::to_string(o == p) + text(std::optional<E>().value_or(v)));
        p.reset();
        p = o;
        t.push_back(text(*p));
        break;
    }
    case 9: {
        std::any a(std::in_place_type<E>, v);
        std::any b = a;
        std::any_cast<E&>(a) = w;
        a.swap(b);
        t.push_back(text(std::any_cast<const E&>(a)) + text(std::any_cast<E>(b)));
        break;
    }
    case 10: {
        std::variant<int, E, std::string> a(std::in_place_index<1>, v), b(5);
        std::swap(a, b);
        b = std::get<1>(b);
        a.template emplace<1>(w);
        t.push_back(text(std::get<1>(b)) + text(std::get<1>(a)) + std::to_string(a == b));
        break;
    }
    case 11: {
        std::pair<E, E> p(v, w);
        std::swap(p.first, p.second);
        auto [a, b] = p;
        std::tuple<E, int, E> q(a, 1, b);
        std::get<0>(q) = std::get<2>(q);
        const auto r = std::tuple_cat(std::make_tuple(a), std::move(q));
        t.push_back(text(p.first) + text(p.second) + text(std::get<0>(r)) + text(std::get<1>(r)) + text(std::get<3>(r)) + std::to_string(p == std::make_pair(a, b)));
        break;
    }
    case 12: {
        std::array<E, 3> a { v, w, v }, b { w, w, w };
        std::swap(a, b);
        std::rotate(b.begin(), b.begin() + 1, b.end());
        t.push_back(text(a[0]) + text(b[0]) + text(b[1]) + text(b[2]) + std::to_string(a == b));
        a.fill(v);
        tell(t, a.begin(), a.end());
        break;
    }
    case 13: {
        std::vector<std::shared_ptr<E>> d;
        for (E& x : l) d.push_back(std::make_shared<E>(std::move(x)));
        std::reverse(d.begin(), d.end());
        if (!d.empty()) *d[0] = v;
        for (auto& p : d) t.push_back(text(*p));
        auto u = std::make_unique<E[]>(3);
        u[1] = w;
        t.push_back(text(u[0]) + text(u[1]));
        break;
    }
    case 14: {
        std::vector<E> d;
        for (size_t i = 0; i < 3 * n + 5; ++i) d.push_back(n ? l[i % n] : v);
        tell(t, d.begin(), d.end());
        break;
    }
    case 15: {
        std::vector<std::vector<E>> d(3, l);
        d.emplace_back();
        d[1].push_back(v);
        std::swap(d[0], d[3]);
        d.erase(d.begin() + 2);
        for (auto& x : d) tell(t, x.begin(), x.end());
        break;
    }
    case 16: {
        std::make_heap(l.begin(), l.end(), Less<E>());
        while (!l.empty()) {
            std::pop_heap(l.begin(), l.end(), Less<E>());
            t.push_back(text(l.back()));
            l.pop_back();
        }
        break;
    }
    case 17: {
        E a = v;
        const E b = std::exchange(a, w);
        const E c = std::exchange(a, {});
        t.push_back(text(a) + text(b) + text(c));
        break;
    }
    default: {
        const std::initializer_list<E> il { v, w, v };
        std::vector<E> d(il);
        d = { w, v };
        t.push_back(std::to_string(il.size()) + text(*il.begin()));
        tell(t, d.begin(), d.end());
    }
    }
    return t;
}

// growing containers moves their elements: an element that moves keeps what it holds in its place
template <typename E>
static void grows(const E& v, const char* what)
{
    std::vector<E> l(1, v);
    std::vector<unsigned long long> calls;
    while (l.size() < 40) {
        const size_t room = l.capacity() - l.size();
        E one = v;
        const auto before = g_alloc.calls;
        l.push_back(std::move(one));
        const auto used = g_alloc.calls - before;
        PBT_CHECK(used <= (room ? 0u : 1u), "a std::vector of " << what << " that grows allocates " << used << " times: it copies its elements: " << printable(text(v)));
    }
    const auto before = g_alloc.calls;
    std::reverse(l.begin(), l.end());
    std::rotate(l.begin(), l.begin() + 7, l.end());
    l.insert(l.begin() + 3, std::move(l.back()));
    std::swap(l[0], l[1]);
    PBT_CHECK(g_alloc.calls - before <= 1, "rearranging a std::vector of " << what << " allocates: " << printable(text(v)));
    std::list<E> li;
    li.push_back(std::move(l[0]));
    std::deque<E> de;
    const auto b2 = g_alloc.calls;
    de.push_back(std::move(li.front()));
    PBT_CHECK(g_alloc.calls - b2 <= 2, "moving " << what << " into a std::deque copies it: " << printable(text(v)));
}

static bool same(const json::array& a, const std::vector<V>& m) { return mj::to_model(json::value(a)) == V::arr(m); }
static bool same(const std::vector<json::value>& a, const std::vector<V>& m)
{
    return a.size() == m.size() && std::equal(a.begin(), a.end(), m.begin(), [](const json::value& x, const V& y) { return mj::to_model(x) == y; });
}

void property(Source& s)
{
    std::vector<V> pool; // few different ones, so that equal elements meet
    do {
        pool.push_back(model::gen_any(s, 5, 2));
    } while (s.more(4) && pool.size() < 7);
    const auto gen = [&] { return s.below(8) == 0 ? model::gen_any(s, 4, 2) : pool[s.below(pool.size())]; };
    const auto step = [&](size_t ops) {
        Step st;
        st.op = s.below(ops);
        st.i = s.below(64);
        st.j = s.below(64);
        st.k = s.below(12);
        st.v = gen();
        st.w = gen();
        st.seed = s.below(1000);
        return st;
    };
    std::string log;
    const size_t what = s.weighted({ 4, 3, 3 });
    const auto check = [&](const Told& a, const Told& b, const std::string& op) {
        if (a != b) fail(log + "\n" + op + " tells\n  " + printable(join(a)) + "\ninstead of\n  " + printable(join(b)));
    };
    if (what == 0) {
        json::array x;
        json::value inside { json::array() }; // the same, as part of a value
        std::vector<json::value> plain;
        std::vector<V> m;
        for (size_t i = s.below(9); i-- > 0;) m.push_back(gen());
        for (const V& v : m) x.push_back(mj::build(v));
        inside = x;
        for (const V& v : m) plain.push_back(mj::build(v));
        log = "starting with " + mj::show(V::arr(m));
        size_t steps = 0;
        do {
            const Step st = step(sizeof seq_ops / sizeof *seq_ops);
            log += std::string("; ") + seq_ops[st.op] + " " + std::to_string(st.i) + " " + std::to_string(st.j) + " " + std::to_string(st.k) + " " + mj::show(st.v) + " " + mj::show(st.w);
            std::vector<V> m2 = m;
            const Told want = seq(m2, st);
            check(seq(x, st), want, seq_ops[st.op]);
            check(seq(inside.as_array(), st), want, seq_ops[st.op]);
            check(seq(plain, st), want, seq_ops[st.op]);
            m = m2;
            if (!same(x, m) || !same(inside.as_array(), m) || !same(plain, m)) fail(log + "\ngives " + printable(x.to_string()) + " and " + printable(inside.to_string()) + " instead of " + mj::show(V::arr(m)));
            label(std::string("sequence: ") + seq_ops[st.op]);
            ++steps;
        } while (s.more(9) && steps < 30);
        if (steps > 1) nontrivial(hash_bytes(log, 0));
    }
    else if (what == 1) {
        json::object x;
        std::map<std::string, V> m;
        for (size_t i = s.below(9); i-- > 0;) m[s.below(3) ? "k" + std::to_string(s.below(9)) : model::gen_key(s)] = gen();
        for (auto& [k, v] : m) x[k] = mj::build(v);
        json::value inside { x };
        log = "starting with " + mj::show(V::obj(m));
        size_t steps = 0;
        do {
            const Step st = step(sizeof map_ops / sizeof *map_ops);
            log += std::string("; ") + map_ops[st.op] + " " + std::to_string(st.i) + " " + std::to_string(st.k) + " " + mj::show(st.v) + " " + mj::show(st.w);
            const Told want = map(m, st);
            check(map(x, st), want, map_ops[st.op]);
            check(map(inside.as_object(), st), want, map_ops[st.op]);
            if (mj::to_model(json::value(x)) != V::obj(m) || mj::to_model(inside) != V::obj(m)) fail(log + "\ngives " + printable(x.to_string()) + " and " + printable(inside.to_string()) + " instead of " + mj::show(V::obj(m)));
            label(std::string("map: ") + map_ops[st.op]);
            ++steps;
        } while (s.more(9) && steps < 30);
        if (steps > 1) nontrivial(hash_bytes(log, 1));
    }
    else {
        std::vector<V> l;
        for (size_t i = 1 + s.below(7); i-- > 0;) l.push_back(gen());
        log = "with " + mj::show(V::arr(l));
        do {
            const Step st = step(sizeof held_ops / sizeof *held_ops);
            log += std::string("; ") + held_ops[st.op] + " " + std::to_string(st.i) + " " + std::to_string(st.j) + " " + mj::show(st.v) + " " + mj::show(st.w);
            check(held<json::value>(l, st), held<V>(l, st), held_ops[st.op]);
            label(std::string("elements of others: ") + held_ops[st.op]);
        } while (s.more(5));
        const V v = gen();
        grows(mj::build(v), "values");
        if (v.k == model::Arr) grows(mj::build(v).as_array(), "arrays");
        if (v.k == model::Obj) grows(mj::build(v).as_object(), "objects");
        nontrivial(hash_bytes(log, 2));
    }
    sample(log.substr(0, 600));
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
