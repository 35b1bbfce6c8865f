// Bridges between meojson's values and the reference model, through the public API only.
#pragma once

#include "json.hpp"

#include "model.hpp"

namespace mj
{
using model::V;

inline V to_model(const json::value& v)
{
    switch (v.type()) {
    case json::value::value_type::null: return V::null();
    case json::value::value_type::boolean: return V::boolean(v.as_boolean());
    case json::value::value_type::number: return V::num(v.to_string());
    case json::value::value_type::string: return V::str(v.as_string());
    case json::value::value_type::array: {
        V r = V::arr();
        for (const json::value& x : v.as_array()) r.a.push_back(to_model(x));
        return r;
    }
    case json::value::value_type::object: {
        V r = V::obj();
        for (const auto& [k, x] : v.as_object()) {
            if (!r.o.emplace(k, to_model(x)).second) pbt::fail("an object holds the same key twice: " + k);
        }
        return r;
    }
    default: pbt::fail("a value of no type");
    }
}

// The value of a model tree, built without the parser
inline json::value build(const V& v)
{
    switch (v.k) {
    case model::Null: return json::value();
    case model::Bool: return json::value(v.b);
    case model::Num: return json::value(json::value::value_type::number, v.s);
    case model::Str: return json::value(v.s);
    case model::Arr: {
        json::array a;
        for (auto& x : v.a) a.push_back(build(x));
        return json::value(std::move(a));
    }
    default: {
        json::object o;
        for (auto& [k, x] : v.o) o.emplace(k, build(x));
        return json::value(std::move(o));
    }
    }
}

inline std::string show(const V& v)
{
    return pbt::printable(model::dump(v), 1500);
}
inline std::string show(const std::optional<V>& v)
{
    return v ? show(*v) : "(rejected)";
}

// Bytes in a heap buffer of exactly their size: a sanitizer sees any access beyond it.
class Exact
{
public:
    explicit Exact(std::string_view s) : _n(s.size()), _p(static_cast<char*>(malloc(s.size() ? s.size() : 1)))
    {
        if (!s.empty()) memcpy(_p, s.data(), s.size());
    }
    ~Exact() { free(_p); }
    Exact(const Exact&) = delete;
    std::string_view view() const { return { _p, _n }; }

private:
    size_t _n;
    char* _p;
};
} // namespace mj
