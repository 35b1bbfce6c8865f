// Inputs for the battery.
#pragma once
#include "battery.hpp"
#include "mj.hpp"

namespace battery
{
using model::V;
using pbt::Source;

inline V gen_named(Source& s)
{
    const size_t k = s.weighted({ 4, 3, 3, 1 });
    if (k == 0) return V::str(s.pick({ "Red", "GREEN", "Blue", "dark_red", "IIII", "iiii", "I", "i", "Top", "first", "second", "loose_a", "nobody" }));
    if (k == 1) return V::num(model::gen_number(s));
    if (k == 2) return V::num(std::to_string(s.range(-12, 130)));
    return model::gen_any(s, 4, 2);
}
inline V gen_spot(Source& s)
{
    V o = V::obj();
    if (s.below(10)) o.o["x"] = V::num(std::to_string(s.range(-100000, 100000)));
    if (s.below(3)) o.o["y"] = V::num(model::gen_number(s));
    if (s.below(10)) o.o["The Title"] = V::str(model::gen_string(s));
    if (!s.below(6)) o.o[model::gen_key(s)] = gen_named(s);
    return o;
}
inline V gen_sheet(Source& s)
{
    V o = V::obj();
    V spots = V::arr();
    for (size_t n = s.below(4); n > 0; --n) spots.a.push_back(gen_spot(s));
    if (s.below(10)) o.o["spots"] = spots;
    V flags = V::obj();
    for (size_t n = s.below(3); n > 0; --n) {
        const std::string k = model::gen_key(s);
        flags.o[k] = s.below(3) ? V::boolean(s.flip()) : V::null();
    }
    if (s.below(10)) o.o["flags"] = flags;
    if (s.flip()) o.o["hue"] = gen_named(s);
    if (s.below(10)) o.o["any"] = gen_named(s);
    if (s.flip()) {
        V t = V::arr();
        t.a.push_back(gen_named(s));
        t.a.push_back(V::str(model::gen_string(s)));
        t.a.push_back(gen_named(s));
        o.o["tup"] = t;
    }
    return o;
}
inline V gen_flat(Source& s)
{
    V a = V::arr();
    for (size_t n = 1 + s.below(8); n > 0; --n) a.a.push_back(gen_named(s));
    return a;
}

struct Input
{
    std::string text;
    uint64_t param;
};
inline Input gen_input(Source& s)
{
    Input in;
    in.param = s.bits();
    model::Style st = model::gen_style(s, s.below(3) == 0);
    V v;
    const size_t k = s.weighted({ 35, 20, 15, 15, 15 });
    if (k == 0) v = model::gen_root(s, 20, 4);
    else if (k == 1) v = gen_sheet(s);
    else if (k == 2) v = gen_spot(s);
    else if (k == 3) v = gen_flat(s);
    else {
        model::DocClass cls;
        in.text = model::gen_text(s, s.flip(), cls);
        return in;
    }
    in.text = model::render_doc(s, st, v);
    if (s.below(5) == 0) in.text = model::mutate(s, std::move(in.text), 1);
    return in;
}
inline std::string pack(const Input& in)
{
    std::string r(8, 0);
    for (int i = 0; i < 8; ++i) r[static_cast<size_t>(i)] = static_cast<char>(in.param >> (8 * i));
    return r + in.text;
}
inline Input unpack(const std::string& b)
{
    Input in { b.size() > 8 ? b.substr(8) : "", 0 };
    for (size_t i = 0; i < 8 && i < b.size(); ++i) in.param |= static_cast<uint64_t>(static_cast<unsigned char>(b[i])) << (8 * i);
    return in;
}
} // namespace battery
