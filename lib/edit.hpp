// Histories of edits: random operations on a few values, arrays and objects, each done at the same time
// on an ordinary vector/map model; everything is compared after every operation.
#pragma once

#include <list>
#include <set>
#include <unordered_map>
#include <utility>

#include "mj.hpp"

namespace edit
{
using model::Kind;
using model::V;
using pbt::Source;

struct World
{
    static constexpr size_t n_values = 3, n_arrays = 2, n_objects = 2, n_roots = 7;
    json::value v[n_values];
    json::array a[n_arrays];
    json::object o[n_objects];
    V m[n_roots]; // values, arrays, objects

    World()
    {
        for (size_t i = 0; i < n_arrays; ++i) m[n_values + i] = V::arr();
        for (size_t i = 0; i < n_objects; ++i) m[n_values + n_arrays + i] = V::obj();
    }
};

// A place in the world: a root and the way down
struct Step
{
    size_t pos;
    std::string key;
    bool by_key;
    bool operator==(const Step& r) const { return by_key == r.by_key && (by_key ? key == r.key : pos == r.pos); }
};
struct Place
{
    size_t root = 0;
    std::vector<Step> way;

    bool is_value() const { return root < World::n_values || !way.empty(); }
    // this one is r, or holds r
    bool holds(const Place& r) const
    {
        return root == r.root && way.size() <= r.way.size() && std::equal(way.begin(), way.end(), r.way.begin());
    }
    bool apart(const Place& r) const { return !holds(r) && !r.holds(*this); }
    std::string show() const
    {
        static const char* const names[] = { "v0", "v1", "v2", "a0", "a1", "o0", "o1" };
        std::string t = names[root];
        for (auto& s : way) t += s.by_key ? "[\"" + pbt::printable(s.key) + "\"]" : "[" + std::to_string(s.pos) + "]";
        return t;
    }
};

struct Focus
{
    bool copies = false; // P13: mostly copies, moves and aliased operands
};

class Machine
{
public:
    Machine(Source& s, Focus f) : s(s), focus(f) {}

    void run()
    {
        const size_t mean = 4 + s.size() / 4;
        if (s.chance(2)) start_large();
        compare("at the start");
        while (s.more(mean)) {
            step();
            ++ops;
            compare(last.c_str());
            for (size_t r = 0; r < World::n_roots; ++r) {
                if (model::count_nodes(w.m[r]) > limit) shrink_root(r);
            }
        }
        finish();
    }
    // a history that begins with many elements
    void start_large()
    {
        limit = 2500;
        const V x = model::gen_bulk(s, fresh_arr()), y = model::gen_bulk(s, fresh_obj());
        w.v[0] = mj::build(x);
        w.m[0] = x;
        for (const V& m : { x, y }) {
            if (m.k == model::Arr) {
                w.a[0] = build_arr(m);
                w.m[World::n_values] = m;
            }
            else if (m.k == model::Obj) {
                w.o[0] = build_obj(m);
                w.m[World::n_values + World::n_arrays] = m;
            }
        }
        pbt::label("histories that begin with many elements");
    }
    size_t limit = 120;
    size_t ops = 0, changes = 0, refusals = 0, aliased = 0, moved = 0;
    uint64_t digest = 0;
    std::string trace;

private:
    Source& s;
    Focus focus;
    World w;
    std::string last;

    // ------------------------------------------------------------ places
    Place place()
    {
        Place p;
        p.root = s.below(World::n_roots);
        V* m = &w.m[p.root];
        while (s.chance(60)) {
            if (m->k == model::Arr && !m->a.empty()) {
                const size_t i = s.below(m->a.size());
                p.way.push_back({ i, {}, false });
                m = &m->a[i];
            }
            else if (m->k == model::Obj && !m->o.empty()) {
                auto it = m->o.begin();
                std::advance(it, s.below(m->o.size()));
                p.way.push_back({ 0, it->first, true });
                m = &it->second;
            }
            else break;
        }
        return p;
    }
    V& mod(const Place& p)
    {
        V* m = &w.m[p.root];
        for (auto& st : p.way) m = st.by_key ? &m->o.at(st.key) : &m->a.at(st.pos);
        return *m;
    }
    json::value& child(json::array& a, const Step& st)
    {
        switch (s.below(3)) {
        case 0: return a[st.pos];
        case 1: return *(a.begin() + static_cast<std::ptrdiff_t>(st.pos));
        default: return *(a.rbegin() + static_cast<std::ptrdiff_t>(a.size() - 1 - st.pos));
        }
    }
    json::value& child(json::object& o, const Step& st)
    {
        switch (s.below(3)) {
        case 0: return o[st.key];
        case 1: return o[std::string(st.key)];
        default:
            for (auto& [k, x] : o) {
                if (k == st.key) return x;
            }
            pbt::fail("iteration doesn't find the member " + pbt::printable(st.key));
        }
    }
    json::value& child(json::value& v, const Step& st)
    {
        if (st.by_key) return s.flip() ? v[st.key] : child(v.as_object(), st);
        return s.flip() ? v[st.pos] : child(v.as_array(), st);
    }
    json::value& val(const Place& p)
    {
        json::value* x;
        size_t i = 0;
        if (p.root < World::n_values) x = &w.v[p.root];
        else if (p.root < World::n_values + World::n_arrays) x = &child(w.a[p.root - World::n_values], p.way.at(i++));
        else x = &child(w.o[p.root - World::n_values - World::n_arrays], p.way.at(i++));
        for (; i < p.way.size(); ++i) x = &child(*x, p.way[i]);
        return *x;
    }
    json::array& arr(const Place& p)
    {
        return p.is_value() ? val(p).as_array() : w.a[p.root - World::n_values];
    }
    json::object& obj(const Place& p)
    {
        return p.is_value() ? val(p).as_object() : w.o[p.root - World::n_values - World::n_arrays];
    }

    // a place of some kind, if a few tries find one
    template <typename F>
    bool find(Place& p, F ok)
    {
        for (int i = 0; i < 6; ++i) {
            p = place();
            if (ok(p)) return true;
        }
        return false;
    }
    bool value_place(Place& p) { return find(p, [](const Place& x) { return x.is_value(); }); }
    bool array_place(Place& p) { return find(p, [this](const Place& x) { return mod(x).k == model::Arr; }); }
    bool object_place(Place& p) { return find(p, [this](const Place& x) { return mod(x).k == model::Obj; }); }

    V fresh() { return model::gen_any(s, 5, 3); }
    V fresh_arr()
    {
        V v = V::arr();
        while (s.more(2)) v.a.push_back(model::gen_any(s, 3, 2));
        return v;
    }
    V fresh_obj()
    {
        V v = V::obj();
        while (s.more(2)) v.o[key()] = model::gen_any(s, 3, 2);
        return v;
    }
    std::string key() { return model::gen_key(s); }
    // mostly a key that is there
    std::string key_of(const V& m)
    {
        if (m.k == model::Obj && !m.o.empty() && s.chance(60)) {
            auto it = m.o.begin();
            std::advance(it, s.below(m.o.size()));
            return it->first;
        }
        return key();
    }
    size_t pos_of(const V& m)
    {
        const size_t n = m.a.size();
        return s.chance(80) && n ? s.below(n) : n + s.pick<size_t>({ 0, 0, 1, 5, size_t(-1) / 2 });
    }
    static json::array build_arr(const V& m)
    {
        json::array a;
        for (auto& x : m.a) a.push_back(mj::build(x));
        return a;
    }
    static json::object build_obj(const V& m)
    {
        json::object o;
        for (auto& [k, x] : m.o) o.emplace(k, mj::build(x));
        return o;
    }

    // ------------------------------------------------------------ bookkeeping
    void log(const std::string& t)
    {
        last = t;
        digest = pbt::hash_bytes(t, digest);
        if (trace.size() < 300) trace += t + "; ";
        if (pbt::g_verbose) pbt::note("do", t);
    }
    // an operation that has to be refused
    template <typename F>
    void refused(F&& f)
    {
        bool threw = false;
        try {
            f();
        }
        catch (const json::exception&) {
            threw = true;
        }
        catch (const std::out_of_range&) {
            threw = true;
        }
        if (!threw) pbt::fail("not refused: " + last);
        ++refusals;
    }
    // a refused operation takes nothing from its operand
    template <typename T>
    void kept(const T& y, const V& m)
    {
        using T0 = std::decay_t<T>;
        if constexpr (std::is_same_v<T0, json::value>) same(mj::to_model(y) == m, "a refused operation changed its operand");
        else if constexpr (std::is_same_v<T0, json::array> || std::is_same_v<T0, json::object>) same(to_model(y) == m, "a refused operation changed its operand");
        else if constexpr (std::is_same_v<T0, std::string>) same(y == m.s, "a refused operation changed its operand");
        else if constexpr (std::is_same_v<T0, std::map<std::string, std::string>>) same(y.size() == m.o.size(), "a refused operation changed its operand");
    }
    void same(bool cond, const char* what)
    {
        if (!cond) pbt::fail(std::string(what) + " after " + last);
    }
    void compare_root(const V& got, size_t r, const char* after)
    {
        if (got != w.m[r]) {
            Place p;
            p.root = r;
            pbt::fail(p.show() + " after " + after + ": is " + mj::show(got) + " should be " + mj::show(w.m[r]));
        }
    }
    static V to_model(const json::array& a)
    {
        V r = V::arr();
        for (const auto& x : a) r.a.push_back(mj::to_model(x));
        return r;
    }
    static V to_model(const json::object& o)
    {
        V r = V::obj();
        std::string prev;
        for (const auto& [k, x] : o) {
            if (!r.o.empty() && !(prev < k)) pbt::fail("members out of order: " + pbt::printable(prev) + " before " + pbt::printable(k));
            prev = k;
            r.o.emplace(k, mj::to_model(x));
        }
        return r;
    }
    void compare(const char* after)
    {
        for (size_t i = 0; i < World::n_values; ++i) compare_root(mj::to_model(w.v[i]), i, after);
        for (size_t i = 0; i < World::n_arrays; ++i) {
            compare_root(to_model(w.a[i]), World::n_values + i, after);
            same(w.a[i].size() == w.m[World::n_values + i].a.size() && w.a[i].empty() == w.m[World::n_values + i].a.empty(), "size of an array");
        }
        for (size_t i = 0; i < World::n_objects; ++i) {
            const size_t r = World::n_values + World::n_arrays + i;
            compare_root(to_model(w.o[i]), r, after);
            same(w.o[i].size() == w.m[r].o.size() && w.o[i].empty() == w.m[r].o.empty(), "size of an object");
        }
    }
    void finish()
    {
        for (size_t i = 0; i < World::n_values; ++i) {
            same(w.v[i] == mj::build(w.m[i]), "equality with an independently built value");
            same(w.v[i].to_string() == model::dump(w.m[i]), "text of a value");
        }
        for (size_t i = 0; i < World::n_arrays; ++i) {
            same(w.a[i] == build_arr(w.m[World::n_values + i]), "equality with an independently built array");
            same(w.a[i].to_string() == model::dump(w.m[World::n_values + i]), "text of an array");
        }
        for (size_t i = 0; i < World::n_objects; ++i) {
            const size_t r = World::n_values + World::n_arrays + i;
            same(w.o[i] == build_obj(w.m[r]), "equality with an independently built object");
            same(w.o[i].to_string() == model::dump(w.m[r]), "text of an object");
        }
    }

    void shrink_root(size_t r)
    {
        if (r < World::n_values) {
            w.v[r] = 0;
            w.m[r] = V::num("0");
        }
        else if (r < World::n_values + World::n_arrays) {
            w.a[r - World::n_values].clear();
            w.m[r] = V::arr();
        }
        else {
            w.o[r - World::n_values - World::n_arrays].clear();
            w.m[r] = V::obj();
        }
    }

    // What was moved from can be printed, copied, compared, assigned; then it gets something known.
    template <typename T>
    void usable(T& x)
    {
        const std::string t = x.to_string();
        same(model::parse("[" + t + "]", false).has_value(), "what was moved from doesn't print as JSON");
        x.format();
        T c = x;
        same(c == x && c.to_string() == t, "what was moved from isn't equal to its copy");
    }
    void refill(json::value& x, V& m)
    {
        ++moved;
        usable(x);
        switch (s.below(3)) {
        case 0: x.clear(); m = V::null(); break;
        case 1: m = fresh(); x = mj::build(m); break;
        default: m = V::arr(); x = json::array(); break;
        }
    }
    void refill(json::array& x, V& m)
    {
        ++moved;
        usable(x);
        if (s.flip()) {
            x.clear();
            m = V::arr();
        }
        else {
            m = fresh_arr();
            x = build_arr(m);
        }
    }
    void refill(json::object& x, V& m)
    {
        ++moved;
        usable(x);
        if (s.flip()) {
            x.clear();
            m = V::obj();
        }
        else {
            m = fresh_obj();
            x = build_obj(m);
        }
    }
    void refill_at(const Place& p)
    {
        V& m = mod(p);
        if (p.is_value()) refill(val(p), m);
        else if (p.root < World::n_values + World::n_arrays) refill(arr(p), m);
        else refill(obj(p), m);
    }

    // ------------------------------------------------------------ arguments
    // Calls f with something a value can be made of, and the model of what it is. `target` is the place
    // the operation works on. What has been moved from is refilled afterwards.
    template <typename F>
    void with_argument(const Place& target, F&& f)
    {
        Place y;
        const size_t c = focus.copies ? s.weighted({ 2, 1, 0, 0, 0, 0, 0, 0, 0, 1, 1, 12, 8 }) : s.weighted({ 4, 4, 2, 1, 1, 1, 1, 1, 2, 2, 2, 4, 2 });
        switch (c) {
        case 0: {
            const V m = fresh();
            f(mj::build(m), m, "fresh value");
            return;
        }
        case 1: {
            const V m = fresh();
            const json::value x = mj::build(m);
            f(x, m, "const value");
            same(mj::to_model(x) == m, "a const operand changed");
            return;
        }
        case 2: {
            const int i = static_cast<int>(s.range(-1000, 1000));
            f(i, V::num(std::to_string(i)), "int");
            return;
        }
        case 3: f(s.flip(), V::boolean(false), "bool"); return; // patched by the caller through the value itself
        case 4: {
            const std::string t = model::gen_string(s, 2);
            f(t, V::str(t), "string");
            return;
        }
        case 5: f("text", V::str("text"), "const char*"); return;
        case 6: f(nullptr, V::null(), "nullptr"); return;
        case 7: {
            std::vector<int> x;
            V m = V::arr();
            while (s.more(2)) {
                x.push_back(static_cast<int>(s.range(0, 99)));
                m.a.push_back(V::num(std::to_string(x.back())));
            }
            f(x, m, "vector<int>");
            return;
        }
        case 8: {
            std::map<std::string, std::string> x;
            V m = V::obj();
            while (s.more(2)) {
                const std::string k = key();
                x[k] = "m";
                m.o[k] = V::str("m");
            }
            f(std::move(x), m, "map");
            return;
        }
        case 9: {
            const V m = fresh_arr();
            f(build_arr(m), m, "fresh array");
            return;
        }
        case 10: {
            const V m = fresh_obj();
            f(build_obj(m), m, "fresh object");
            return;
        }
        case 11: { // a copy of some place, which may be the target, its part or its parent
            y = place();
            const V m = mod(y);
            if (y.root == target.root && !y.apart(target)) ++aliased;
            const std::string name = "copy of " + y.show();
            if (y.is_value()) {
                json::value& x = val(y);
                f(x, m, name.c_str());
            }
            else if (y.root < World::n_values + World::n_arrays) f(static_cast<const json::array&>(arr(y)), m, name.c_str());
            else f(static_cast<const json::object&>(obj(y)), m, name.c_str());
            return;
        }
        default: { // moved out of another place
            if (!find(y, [&](const Place& p) { return p.apart(target); })) {
                f(nullptr, V::null(), "nullptr");
                return;
            }
            const V m = mod(y);
            const std::string name = "move of " + y.show();
            if (y.is_value()) {
                json::value& x = val(y);
                f(std::move(x), m, name.c_str());
            }
            else if (y.root < World::n_values + World::n_arrays) f(std::move(arr(y)), m, name.c_str());
            else f(std::move(obj(y)), m, name.c_str());
            refill_at(y);
            return;
        }
        }
    }

    static V fix(const V& m, bool b) { (void)m; return V::boolean(b); }
    template <typename T>
    static V fix(const V& m, const T&) { return m; }

    // an array operand: fresh, another place's or an aliased one
    template <typename F>
    void with_array(const Place& target, F&& f)
    {
        Place y;
        switch (focus.copies ? s.weighted({ 1, 1, 6, 4 }) : s.weighted({ 3, 2, 4, 2 })) {
        case 0: {
            const V m = fresh_arr();
            f(build_arr(m), m, "fresh array");
            return;
        }
        case 1: {
            const V m = fresh_arr();
            const json::array x = build_arr(m);
            f(x, m, "const array");
            same(to_model(x) == m, "a const operand changed");
            return;
        }
        case 2: {
            if (!array_place(y)) return;
            const V m = mod(y);
            if (!y.apart(target)) ++aliased;
            f(static_cast<const json::array&>(arr(y)), m, ("copy of " + y.show()).c_str());
            return;
        }
        default: {
            if (!find(y, [&](const Place& p) { return mod(p).k == model::Arr && p.apart(target); })) return;
            const V m = mod(y);
            f(std::move(arr(y)), m, ("move of " + y.show()).c_str());
            usable(arr(y));
            refill_at(y);
        }
        }
    }
    template <typename F>
    void with_object(const Place& target, F&& f)
    {
        Place y;
        switch (focus.copies ? s.weighted({ 1, 1, 6, 4 }) : s.weighted({ 3, 2, 4, 2 })) {
        case 0: {
            const V m = fresh_obj();
            f(build_obj(m), m, "fresh object");
            return;
        }
        case 1: {
            const V m = fresh_obj();
            const json::object x = build_obj(m);
            f(x, m, "const object");
            same(to_model(x) == m, "a const operand changed");
            return;
        }
        case 2: {
            if (!object_place(y)) return;
            const V m = mod(y);
            if (!y.apart(target)) ++aliased;
            f(static_cast<const json::object&>(obj(y)), m, ("copy of " + y.show()).c_str());
            return;
        }
        default: {
            if (!find(y, [&](const Place& p) { return mod(p).k == model::Obj && p.apart(target); })) return;
            const V m = mod(y);
            f(std::move(obj(y)), m, ("move of " + y.show()).c_str());
            usable(obj(y));
            refill_at(y);
        }
        }
    }

    static void append(V& m, const V& r)
    {
        for (auto& x : V(r).a) m.a.push_back(x);
    }
    static void merge(V& m, const V& r)
    {
        for (auto& [k, x] : V(r).o) m.o[k] = x;
    }
    static bool as_arr(V& m) // what a mutable array access does; false: refused
    {
        if (m.k != model::Arr && m.empty()) m = V::arr();
        return m.k == model::Arr;
    }
    static bool as_obj(V& m)
    {
        if (m.k != model::Obj && m.empty()) m = V::obj();
        return m.k == model::Obj;
    }

    // ------------------------------------------------------------ operations
    void step()
    {
        last = "nothing";
        const size_t c = focus.copies ? s.weighted({ 8, 4, 4, 4, 4, 8, 5 }) : s.weighted({ 10, 8, 8, 2, 2, 4, 4 });
        switch (c) {
        case 0: return value_op();
        case 1: return array_op();
        case 2: return object_op();
        case 3: return swap_op();
        case 4: return typed_op();
        case 5: return alias_op();
        default: return root_op();
        }
    }

    void value_op()
    {
        Place p;
        if (!value_place(p)) return;
        json::value& x = val(p);
        V& m = mod(p);
        const std::string n = p.show();
        switch (s.below(16)) {
        case 0:
        case 1: // assignment
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " = " + what);
                const V v = fix(my, y);
                json::value& r = (x = std::forward<decltype(y)>(y));
                m = v;
                same(&r == &x, "assignment returns something else");
                ++changes;
            });
            return;
        case 2:
            log(n + ".clear()");
            x.clear();
            m = V::null();
            return;
        case 3:
        case 4: { // member access, creating
            const std::string k = key_of(m);
            if (!as_obj(m)) {
                log(n + "[key] of " + json_kind(m));
                refused([&] { s.flip() ? x[k] : x[std::string(k)]; });
                return;
            }
            if (s.flip()) {
                log(n + "[" + pbt::printable(k) + "]");
                json::value& r = s.flip() ? x[k] : x[std::string(k)];
                V& mr = m.o[k];
                same(mj::to_model(r) == mr, "operator[] refers to something else");
                ++changes;
                return;
            }
            // the member exists before the right-hand side is copied
            x[k];
            m.o[k];
            Place pk = p;
            pk.way.push_back({ 0, k, true });
            with_argument(pk, [&](auto&& y, const V& my, const char* what) {
                log(n + "[" + pbt::printable(k) + "] = " + what);
                const V v = fix(my, y);
                x[k] = std::forward<decltype(y)>(y);
                m.o[k] = v;
                ++changes;
            });
            return;
        }
        case 5: { // element access
            if (m.k != model::Arr) {
                if (m.empty()) return; // would read beyond the end
                log(n + "[pos] of " + json_kind(m));
                refused([&] { x[size_t(0)]; });
                refused([&] { std::as_const(x)[size_t(0)]; });
                return;
            }
            if (m.a.empty()) return;
            const size_t i = s.below(m.a.size());
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                log(n + "[" + std::to_string(i) + "] = " + what);
                const V v = fix(my, y);
                x[i] = std::forward<decltype(y)>(y);
                m.a[i] = v;
                ++changes;
            });
            return;
        }
        case 6: // append
        case 7: {
            const bool ok = as_arr(m); // an empty target turns into a container before the operand is read
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                log(n + ".emplace(" + what + ")");
                const V v = fix(my, y);
                if (!ok) {
                    if constexpr (std::is_rvalue_reference_v<decltype(y)>) {
                        // refused before anything is taken
                        refused([&] { x.emplace(std::forward<decltype(y)>(y)); });
                    }
                    else refused([&] { x.emplace(y); });
                    kept(y, v);
                    return;
                }
                json::value& r = x.emplace(std::forward<decltype(y)>(y));
                m.a.push_back(v);
                same(x.as_array().size() == m.a.size() && &r == &x.as_array()[m.a.size() - 1], "emplace returns something else");
                ++changes;
            });
            return;
        }
        case 8:
        case 9: { // insert a member
            const std::string k = key_of(m);
            const bool ok = as_obj(m);
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                log(n + ".emplace(" + pbt::printable(k) + ", " + what + ")");
                const V v = fix(my, y);
                if (!ok) {
                    refused([&] { x.emplace(k, std::forward<decltype(y)>(y)); });
                    kept(y, v);
                    return;
                }
                const auto [it, fresh_one] = x.emplace(k, std::forward<decltype(y)>(y));
                same(fresh_one == (m.o.count(k) == 0) && it->first == k, "emplace says whether the member is new");
                m.o[k] = v;
                same(mj::to_model(it->second) == v, "emplace returns another member");
                ++changes;
            });
            return;
        }
        case 10: {
            const V before = m;
            const bool ok = as_arr(m);
            bool done = false;
            with_array(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " += " + what);
                done = true;
                const V v = my;
                if (!ok) {
                    refused([&] { x += std::forward<decltype(y)>(y); });
                    kept(y, v);
                    return;
                }
                json::value& r = (x += std::forward<decltype(y)>(y));
                append(m, v);
                same(&r == &x, "+= returns something else");
                ++changes;
            });
            if (!done) m = before;
            return;
        }
        case 11: {
            const V before = m;
            const bool ok = as_obj(m);
            bool done = false;
            with_object(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " |= " + what);
                done = true;
                const V v = my;
                if (!ok) {
                    refused([&] { x |= std::forward<decltype(y)>(y); });
                    kept(y, v);
                    return;
                }
                json::value& r = (x |= std::forward<decltype(y)>(y));
                merge(m, v);
                same(&r == &x, "|= returns something else");
                ++changes;
            });
            if (!done) m = before;
            return;
        }
        case 12: { // binary operators
            const bool give = s.chance(30);
            if (s.flip()) {
                with_array(p, [&](auto&& y, const V& my, const char* what) {
                    log((give ? "move of " : "") + n + " + " + what);
                    if (give && m.k != model::Arr && y_inside(p, what)) return;
                    V sum = m;
                    if (m.k != model::Arr && !(give && as_arr(sum))) {
                        if (give && m.empty()) return;
                        refused([&] { give ? std::move(x) + std::forward<decltype(y)>(y) : std::as_const(x) + std::forward<decltype(y)>(y); });
                        kept(y, my);
                        return;
                    }
                    append(sum, my);
                    const json::value r = give ? std::move(x) + std::forward<decltype(y)>(y) : std::as_const(x) + std::forward<decltype(y)>(y);
                    same(mj::to_model(r) == sum, "+");
                    if (give) refill(x, m);
                });
            }
            else {
                with_object(p, [&](auto&& y, const V& my, const char* what) {
                    log((give ? "move of " : "") + n + " | " + what);
                    if (give && m.k != model::Obj && y_inside(p, what)) return;
                    V sum = m;
                    if (m.k != model::Obj && !(give && as_obj(sum))) {
                        if (give && m.empty()) return;
                        refused([&] { give ? std::move(x) | std::forward<decltype(y)>(y) : std::as_const(x) | std::forward<decltype(y)>(y); });
                        kept(y, my);
                        return;
                    }
                    merge(sum, my);
                    const json::value r = give ? std::move(x) | std::forward<decltype(y)>(y) : std::as_const(x) | std::forward<decltype(y)>(y);
                    same(mj::to_model(r) == sum, "|");
                    if (give) refill(x, m);
                });
            }
            return;
        }
        case 13: { // erasure
            if (s.flip()) {
                const size_t i = pos_of(m);
                log(n + ".erase(" + std::to_string(i) + ")");
                if (!as_arr(m)) {
                    refused([&] { x.erase(i); });
                    return;
                }
                same(x.erase(i) == (i < m.a.size()), "erase says whether the element was there");
                if (i < m.a.size()) m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
            }
            else {
                const std::string k = key_of(m);
                log(n + ".erase(" + pbt::printable(k) + ")");
                if (!as_obj(m)) {
                    refused([&] { x.erase(k); });
                    return;
                }
                same(x.erase(k) == (m.o.count(k) == 1), "erase says whether the member was there");
                m.o.erase(k);
            }
            ++changes;
            return;
        }
        case 14: // turning empty values into containers
            if (s.flip()) {
                log(n + ".as_array()");
                if (!as_arr(m)) refused([&] { x.as_array(); });
                else same(&x.as_array() == &std::as_const(x).as_array() && x.as_array().size() == m.a.size(), "as_array()");
            }
            else {
                log(n + ".as_object()");
                if (!as_obj(m)) refused([&] { x.as_object(); });
                else same(&x.as_object() == &std::as_const(x).as_object() && x.as_object().size() == m.o.size(), "as_object()");
            }
            return;
        default: { // refusals of const access
            log("const access of " + n);
            const json::value& cx = x;
            if (m.k != model::Arr) {
                refused([&] { cx.as_array(); });
                refused([&] { cx.at(size_t(0)); });
                refused([&] { cx + json::array(); });
                refused([&] { cx.as<json::array>(); });
            }
            else refused([&] { cx.at(m.a.size()); });
            if (m.k != model::Obj) {
                refused([&] { cx.as_object(); });
                refused([&] { cx.at("a"); });
                refused([&] { cx | json::object(); });
                refused([&] { cx.as<json::object>(); });
            }
            else refused([&] { cx.at("no such key"); });
            if (m.k != model::Str) refused([&] { cx.as_string(); });
            if (m.k != model::Num) refused([&] { cx.as_double(); });
            if (m.k != model::Bool) refused([&] { cx.as_boolean(); });
            return;
        }
        }
    }
    // the operand of an operation that takes x apart must not be inside it
    bool y_inside(const Place& p, const char* what)
    {
        const std::string t = what;
        return t.compare(0, 8, "copy of ") == 0 && (t.compare(8, p.show().size(), p.show()) == 0 || p.show().compare(0, t.size() - 8, t.substr(8)) == 0);
    }
    static const char* json_kind(const V& m)
    {
        static const char* const n[] = { "null", "a boolean", "a number", "a string", "an array", "an object" };
        return n[m.k];
    }

    void array_op()
    {
        Place p;
        if (!array_place(p)) return;
        json::array& x = arr(p);
        V& m = mod(p);
        const std::string n = p.show();
        ++changes;
        switch (s.below(12)) {
        case 0:
        case 1:
        case 2:
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                const bool push = s.flip();
                log(n + (push ? ".push_back(" : ".emplace_back(") + what + ")");
                const V v = fix(my, y);
                json::value& r = push ? x.push_back(std::forward<decltype(y)>(y)) : x.emplace_back(std::forward<decltype(y)>(y));
                m.a.push_back(v);
                same(x.size() == m.a.size() && &r == &x[m.a.size() - 1], "emplace_back returns something else");
            });
            return;
        case 3:
            with_array(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " += " + what);
                const V v = my;
                json::array& r = (x += std::forward<decltype(y)>(y));
                append(m, v);
                same(&r == &x, "+= returns something else");
            });
            return;
        case 4: {
            const bool give = s.chance(30);
            with_array(p, [&](auto&& y, const V& my, const char* what) {
                log((give ? "move of " : "") + n + " + " + what);
                V sum = m;
                append(sum, my);
                const json::array r = give ? std::move(x) + std::forward<decltype(y)>(y) : std::as_const(x) + std::forward<decltype(y)>(y);
                same(to_model(r) == sum, "+");
                if (give) refill(x, m);
            });
            return;
        }
        case 5: {
            const size_t i = pos_of(m);
            log(n + ".erase(" + std::to_string(i) + ")");
            same(x.erase(i) == (i < m.a.size()), "erase says whether the element was there");
            if (i < m.a.size()) m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
            return;
        }
        case 6: {
            const size_t i = s.below(m.a.size() + 1);
            log(n + ".erase(begin() + " + std::to_string(i) + ")");
            same(x.erase(x.begin() + static_cast<std::ptrdiff_t>(i)) == (i < m.a.size()), "erase says whether the element was there");
            if (i < m.a.size()) m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
            return;
        }
        case 7:
            log(n + ".clear()");
            x.clear();
            m.a.clear();
            return;
        case 8: { // every element through iterators
            const V f = fresh();
            if (s.flip()) {
                log("each element of " + n);
                size_t i = 0;
                for (auto& e : x) {
                    if (i % 2 == 0) {
                        e = mj::build(f);
                        m.a.at(i) = f;
                    }
                    ++i;
                }
                same(i == m.a.size(), "iteration");
            }
            else {
                log("each element of " + n + " backwards");
                size_t i = m.a.size();
                for (auto it = x.rbegin(); it != x.rend(); ++it) {
                    same(i > 0, "reverse iteration");
                    --i;
                    if (i % 2) {
                        *it = mj::build(f);
                        m.a[i] = f;
                    }
                }
                same(i == 0, "reverse iteration");
            }
            return;
        }
        case 9: // rearranging
            if (s.flip()) {
                log("reverse " + n);
                std::reverse(x.begin(), x.end());
                std::reverse(m.a.begin(), m.a.end());
            }
            else {
                const size_t k = s.below(m.a.size() + 1);
                log("rotate " + n + " by " + std::to_string(k));
                std::rotate(x.begin(), x.begin() + static_cast<std::ptrdiff_t>(k), x.end());
                std::rotate(m.a.begin(), m.a.begin() + static_cast<std::ptrdiff_t>(k), m.a.end());
            }
            return;
        case 10:
            with_array(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " = " + what);
                const V v = my;
                json::array& r = (x = std::forward<decltype(y)>(y));
                m = v;
                same(&r == &x, "= returns something else");
            });
            return;
        default: { // from other things
            switch (s.below(4)) {
            case 0:
                log(n + " = {...}");
                x = { 1, "two", nullptr, json::array { true }, json::object { { "k", 3 } } };
                m = V::arr({ V::num("1"), V::str("two"), V::null(), V::arr({ V::boolean(true) }), V::obj({ { "k", V::num("3") } }) });
                return;
            case 1: {
                const size_t k = s.below(5);
                log(n + " = array(" + std::to_string(k) + ")");
                x = json::array(k);
                m = V::arr(std::vector<V>(k));
                return;
            }
            case 2: {
                std::list<std::string> l;
                m = V::arr();
                while (s.more(3)) {
                    l.push_back(model::gen_string(s, 1));
                    m.a.push_back(V::str(l.back()));
                }
                log(n + " = list");
                x = l;
                return;
            }
            default:
                log(n + " = vector");
                x = std::vector<json::value> { mj::build(V::num("5")), json::value() };
                m = V::arr({ V::num("5"), V::null() });
                return;
            }
        }
        }
    }

    void object_op()
    {
        Place p;
        if (!object_place(p)) return;
        json::object& x = obj(p);
        V& m = mod(p);
        const std::string n = p.show();
        ++changes;
        switch (s.below(11)) {
        case 0:
        case 1:
        case 2: {
            const std::string k = key_of(m);
            with_argument(p, [&](auto&& y, const V& my, const char* what) {
                const bool ins = s.flip();
                log(n + (ins ? ".insert(" : ".emplace(") + pbt::printable(k) + ", " + what + ")");
                const V v = fix(my, y);
                const auto [it, fresh_one] = ins ? x.insert(k, std::forward<decltype(y)>(y)) : x.emplace(std::string(k), std::forward<decltype(y)>(y));
                same(fresh_one == (m.o.count(k) == 0) && it->first == k, "emplace says whether the member is new");
                m.o[k] = v;
                same(mj::to_model(it->second) == v, "emplace returns another member");
            });
            return;
        }
        case 3:
            with_object(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " |= " + what);
                const V v = my;
                json::object& r = (x |= std::forward<decltype(y)>(y));
                merge(m, v);
                same(&r == &x, "|= returns something else");
            });
            return;
        case 4: {
            const bool give = s.chance(30);
            with_object(p, [&](auto&& y, const V& my, const char* what) {
                log((give ? "move of " : "") + n + " | " + what);
                V sum = m;
                merge(sum, my);
                const json::object r = give ? std::move(x) | std::forward<decltype(y)>(y) : std::as_const(x) | std::forward<decltype(y)>(y);
                same(to_model(r) == sum, "|");
                if (give) refill(x, m);
            });
            return;
        }
        case 5: {
            const std::string k = key_of(m);
            log(n + ".erase(" + pbt::printable(k) + ")");
            same(x.erase(k) == (m.o.count(k) == 1), "erase says whether the member was there");
            m.o.erase(k);
            return;
        }
        case 6: {
            const size_t i = s.below(m.o.size() + 1);
            log(n + ".erase(iterator " + std::to_string(i) + ")");
            auto it = x.begin();
            auto mi = m.o.begin();
            std::advance(it, i);
            std::advance(mi, i);
            same(x.erase(it) == (i < m.o.size()), "erase says whether the member was there");
            if (mi != m.o.end()) m.o.erase(mi);
            return;
        }
        case 7:
            log(n + ".clear()");
            x.clear();
            m.o.clear();
            return;
        case 8: {
            const V f = fresh();
            log("each member of " + n);
            size_t i = 0;
            for (auto& [k, e] : x) {
                if (i++ % 2 == 0) {
                    e = mj::build(f);
                    m.o.at(k) = f;
                }
            }
            same(i == m.o.size(), "iteration");
            return;
        }
        case 9:
            with_object(p, [&](auto&& y, const V& my, const char* what) {
                log(n + " = " + what);
                const V v = my;
                json::object& r = (x = std::forward<decltype(y)>(y));
                m = v;
                same(&r == &x, "= returns something else");
            });
            return;
        default:
            if (s.flip()) {
                log(n + " = {...}");
                x = { { "b", 1 }, { "a", json::array { 1, 2 } }, { "b", 2 }, { "c", json::object { { "x", nullptr } } } };
                m = V::obj({ { "a", V::arr({ V::num("1"), V::num("2") }) }, { "b", V::num("1") }, { "c", V::obj({ { "x", V::null() } }) } });
            }
            else {
                log(n + " = unordered_map");
                std::unordered_map<std::string, int> u;
                m = V::obj();
                while (s.more(3)) {
                    const std::string k = key();
                    u[k] = 7;
                    m.o[k] = V::num("7");
                }
                x = u;
            }
            return;
        }
    }

    void swap_op()
    {
        Place p, q;
        if (!value_place(p) || !find(q, [&](const Place& r) { return r.is_value() && r.apart(p); })) {
            log("swap of roots");
            std::swap(w.a[0], w.a[1]);
            std::swap(w.m[World::n_values], w.m[World::n_values + 1]);
            std::swap(w.o[0], w.o[1]);
            std::swap(w.m[World::n_values + World::n_arrays], w.m[World::n_values + World::n_arrays + 1]);
            return;
        }
        log("swap(" + p.show() + ", " + q.show() + ")");
        json::value& x = val(p);
        json::value& y = val(q);
        if (s.flip()) std::swap(x, y);
        else {
            json::value t = std::move(x);
            x = std::move(y);
            y = std::move(t);
        }
        std::swap(mod(p), mod(q));
        ++changes;
        ++moved;
    }

    // typed copies and moves of the elements
    void typed_op()
    {
        Place p;
        const bool give = s.flip();
        if (s.flip()) {
            if (!array_place(p)) return;
            json::array& x = arr(p);
            V& m = mod(p);
            const size_t how = s.below(4);
            log((give ? "move of " : "") + p.show() + " as a collection of values, way " + std::to_string(how));
            V got = V::arr();
            const auto take = [&](const auto& c) {
                for (const auto& e : c) got.a.push_back(mj::to_model(e));
            };
            switch (how) {
            case 0: give ? take(std::move(x).as<std::vector<json::value>>()) : take(x.as<std::vector<json::value>>()); break;
            case 1: give ? take(std::move(x).as<std::list<json::value>>()) : take(x.as<std::list<json::value>>()); break;
            case 2: {
                if (p.is_value()) {
                    json::value& xv = val(p);
                    give ? take(std::move(xv).as<std::vector<json::value>>()) : take(xv.as<std::vector<json::value>>());
                }
                else give ? take(static_cast<std::vector<json::value>>(std::move(x))) : take(static_cast<std::vector<json::value>>(x));
                break;
            }
            default: {
                json::array c = give ? json::array(std::move(x)) : json::array(x);
                take(c);
                // a copy changed afterwards changes nothing else
                c.push_back(1);
                if (!c.empty()) c[0] = "changed";
                break;
            }
            }
            same(got == m, "the collection holds the elements");
            if (give) {
                if (p.is_value() && s.flip()) refill(val(p), m);
                else refill(x, m);
            }
        }
        else {
            if (!object_place(p)) return;
            json::object& x = obj(p);
            V& m = mod(p);
            const size_t how = s.below(4);
            log((give ? "move of " : "") + p.show() + " as a map of values, way " + std::to_string(how));
            V got = V::obj();
            const auto take = [&](const auto& c) {
                for (const auto& [k, e] : c) got.o[k] = mj::to_model(e);
            };
            switch (how) {
            case 0: give ? take(std::move(x).as<std::map<std::string, json::value>>()) : take(x.as<std::map<std::string, json::value>>()); break;
            case 1: give ? take(std::move(x).as<std::unordered_map<std::string, json::value>>()) : take(x.as<std::unordered_map<std::string, json::value>>()); break;
            case 2: {
                if (p.is_value()) {
                    json::value& xv = val(p);
                    give ? take(std::move(xv).as<std::map<std::string, json::value>>()) : take(xv.as<std::map<std::string, json::value>>());
                }
                else give ? take(static_cast<std::map<std::string, json::value>>(std::move(x))) : take(static_cast<std::map<std::string, json::value>>(x));
                break;
            }
            default: {
                json::object c = give ? json::object(std::move(x)) : json::object(x);
                take(c);
                c["changed"] = 1;
                for (auto& [k, e] : c) e = k;
                break;
            }
            }
            same(got == m, "the map holds the members");
            if (give) {
                if (p.is_value() && s.flip()) refill(val(p), m);
                else refill(x, m);
            }
        }
    }

    // operands inside of, or around, what they are assigned to
    void alias_op()
    {
        Place p;
        if (!find(p, [this](const Place& x) { return mod(x).k == model::Arr || mod(x).k == model::Obj; })) return;
        V& m = mod(p);
        const std::string n = p.show();
        ++aliased;
        // a part of p
        Place q = p;
        V* mq = &m;
        for (size_t depth = 0; depth < 3; ++depth) {
            if (mq->k == model::Arr && !mq->a.empty()) {
                const size_t i = s.below(mq->a.size());
                q.way.push_back({ i, {}, false });
                mq = &mq->a[i];
            }
            else if (mq->k == model::Obj && !mq->o.empty()) {
                auto it = mq->o.begin();
                std::advance(it, s.below(mq->o.size()));
                q.way.push_back({ 0, it->first, true });
                mq = &it->second;
            }
            else break;
            if (s.chance(60)) break;
        }
        const std::string nq = q.show();
        const bool part = q.way.size() > p.way.size();
        switch (s.below(8)) {
        case 0: // an own part, copied or moved, over the whole
        case 1: {
            const bool give = s.flip();
            const V t = *mq;
            if (p.is_value()) {
                json::value& x = val(p);
                json::value& y = val(q);
                log(n + (give ? " = move of " : " = ") + nq);
                give ? (x = std::move(y)) : (x = y);
            }
            else if (mq->k == m.k && m.k == model::Arr) {
                json::array& x = arr(p);
                json::array& y = arr(q);
                log(n + (give ? " = array move of " : " = array ") + nq);
                give ? (x = std::move(y)) : (x = y);
            }
            else if (mq->k == m.k && m.k == model::Obj) {
                json::object& x = obj(p);
                json::object& y = obj(q);
                log(n + (give ? " = object move of " : " = object ") + nq);
                give ? (x = std::move(y)) : (x = y);
            }
            else return;
            m = t;
            return;
        }
        case 2: { // the array or object of an own part over a value or container
            const V t = *mq;
            if (t.k != model::Arr && t.k != model::Obj) return;
            const bool give = s.flip() && part;
            log(n + (give ? " = move of container " : " = container ") + nq);
            if (t.k == model::Arr) {
                json::array& y = arr(q);
                if (p.is_value()) give ? (val(p) = std::move(y)) : (val(p) = y);
                else if (m.k == model::Arr) give ? (arr(p) = std::move(y)) : (arr(p) = y);
                else return;
            }
            else {
                json::object& y = obj(q);
                if (p.is_value()) give ? (val(p) = std::move(y)) : (val(p) = y);
                else if (m.k == model::Obj) give ? (obj(p) = std::move(y)) : (obj(p) = y);
                else return;
            }
            m = t;
            return;
        }
        case 3: { // the whole, copied over an own part
            if (!part) return;
            const V t = m;
            log(nq + " = " + n);
            json::value& y = val(q);
            if (p.is_value()) y = val(p);
            else if (m.k == model::Arr) y = arr(p);
            else y = obj(p);
            *mq = t;
            return;
        }
        case 4: { // appending or merging an own part or oneself
            const V t = *mq;
            if (m.k == model::Arr && t.k == model::Arr) {
                log(n + " += " + nq);
                if (p.is_value() && s.flip()) val(p) += arr(q);
                else arr(p) += arr(q);
                append(m, t);
            }
            else if (m.k == model::Obj && t.k == model::Obj) {
                log(n + " |= " + nq);
                if (p.is_value() && s.flip()) val(p) |= obj(q);
                else obj(p) |= obj(q);
                merge(m, t);
            }
            return;
        }
        case 5: { // the same with the whole as operand
            if (!part) return;
            const V t = m;
            if (t.k == model::Arr && mq->k == model::Arr) {
                log(nq + " += " + n);
                arr(q) += arr(p);
                append(*mq, t);
            }
            else if (t.k == model::Obj && mq->k == model::Obj) {
                log(nq + " |= " + n);
                obj(q) |= obj(p);
                merge(*mq, t);
            }
            return;
        }
        case 6: { // appending or merging what is moved out of an own element
            if (q.way.size() != p.way.size() + 1) return;
            const V t = *mq;
            if (m.k == model::Arr && t.k == model::Arr) {
                log(n + " += move of " + nq);
                arr(p) += std::move(arr(q));
                const size_t i = q.way.back().pos;
                append(m, t);
                refill(arr(p)[i], m.a[i]);
            }
            else if (m.k == model::Obj && t.k == model::Obj) {
                log(n + " |= move of " + nq);
                obj(p) |= std::move(obj(q));
                const std::string k = q.way.back().key;
                merge(m, t);
                if (!t.o.count(k)) refill(obj(p)[k], m.o[k]);
            }
            return;
        }
        default: { // combinations that make something new
            const V t = *mq;
            const V whole = m;
            if (m.k == model::Arr && t.k == model::Arr) {
                log(n + " + " + nq);
                V sum = m;
                append(sum, t);
                const bool back = s.flip();
                json::array r = std::as_const(arr(p)) + arr(q);
                same(to_model(r) == sum, "+");
                if (back) {
                    arr(p) = std::as_const(arr(p)) + arr(q);
                    m = sum;
                }
            }
            else if (m.k == model::Obj && t.k == model::Obj) {
                log(n + " | " + nq);
                V sum = m;
                merge(sum, t);
                const bool back = s.flip();
                json::object r = std::as_const(obj(p)) | obj(q);
                same(to_model(r) == sum, "|");
                if (back) {
                    obj(p) = std::as_const(obj(p)) | obj(q);
                    m = sum;
                }
            }
            return;
        }
        }
    }

    // construction and whole-root copies
    void root_op()
    {
        const size_t i = s.below(World::n_values), j = s.below(World::n_arrays), k = s.below(World::n_objects);
        V& mv = w.m[i];
        V& ma = w.m[World::n_values + j];
        V& mo = w.m[World::n_values + World::n_arrays + k];
        ++changes;
        const std::string n = "v" + std::to_string(i);
        switch (s.below(9)) {
        case 0:
            log(n + " = value(array)");
            w.v[i] = json::value(w.a[j]);
            mv = ma;
            return;
        case 1:
            log(n + " = value(object)");
            w.v[i] = json::value(w.o[k]);
            mv = mo;
            return;
        case 2:
            log(n + " = value(move of array)");
            w.v[i] = json::value(std::move(w.a[j]));
            mv = ma;
            refill(w.a[j], ma);
            return;
        case 3:
            log(n + " = value(move of object)");
            w.v[i] = json::value(std::move(w.o[k]));
            mv = mo;
            refill(w.o[k], mo);
            return;
        case 4: {
            log(n + " by its parsed text");
            if (mv.k != model::Arr && mv.k != model::Obj) return;
            auto r = json::parse(w.v[i].to_string());
            same(r.has_value(), "the text is not parsed");
            w.v[i] = *std::move(r);
            return;
        }
        case 5: { // a whole history of copies
            log("copies of " + n);
            json::value a = w.v[i];
            json::value b(a);
            json::value c = std::move(a);
            same(b == w.v[i] && c == b, "copies are not equal");
            b = 1;
            c.clear();
            usable(a);
            a = w.v[i];
            same(a == w.v[i], "copies are not equal");
            return;
        }
        case 6:
            log("array of " + n);
            if (s.flip()) {
                w.a[j] = json::array { w.v[i], 1 };
                ma = V::arr({ mv, V::num("1") });
            }
            else {
                w.a[j] = json::array { w.v[i], w.v[(i + 1) % World::n_values] };
                ma = V::arr({ mv, w.m[(i + 1) % World::n_values] });
            }
            return;
        case 7:
            log("object of " + n);
            w.o[k] = json::object { { "x", w.v[i] }, { "y", json::array { w.v[i] } } };
            mo = V::obj({ { "x", mv }, { "y", V::arr({ mv }) } });
            return;
        default:
            log(n + " = {...}");
            w.v[i] = json::value { { "k", w.v[(i + 1) % World::n_values] }, { "l", 5 } };
            mv = V::obj({ { "k", w.m[(i + 1) % World::n_values] }, { "l", V::num("5") } });
            return;
        }
    }
};
} // namespace edit
