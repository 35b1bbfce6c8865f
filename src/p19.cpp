// Generates the inputs that every build configuration is run on (see p19_cfg.cpp).
#define PBT_IMPLEMENT
#include "battery_gen.hpp"

namespace pbt
{
const char* const property_id = "P19";

static void put(const std::string& r)
{
    Untracked u;
    static FILE* f = [] {
        const char* p = getenv("P19_RECORDS");
        return p ? fopen((std::string(p) + "-" + std::to_string(g_worker)).c_str(), "wb") : nullptr;
    }();
    if (!f) return;
    const uint32_t n = static_cast<uint32_t>(r.size());
    fwrite(&n, sizeof n, 1, f);
    fwrite(r.data(), 1, n, f);
    fflush(f);
}

void property(Source& s)
{
    const battery::Input in = battery::gen_input(s);
    put(battery::pack(in));
    const bool good = model::parse(in.text, true).has_value();
    label(good ? "texts that are JSON" : "texts that are not");
    if (good && in.text.size() > 4) nontrivial(hash_bytes(battery::pack(in)));
    if (in.text.size() < 200) sample(printable(in.text) + " with " + std::to_string(in.param));
}
void custom(const std::string&, const std::string& b) { put(b); }
void directed()
{
    // strings whose special byte moves through all scanning widths
    size_t i = 0;
    for (size_t n = 0; n < 70; ++n) {
        for (const char* t : { "\"", "\\n", "\\u00e9", "\x1f", "\x7f", "\x80", "\xff", "\\\\" }) {
            if (!mine(i++)) continue;
            battery::Input in { "[\"" + std::string(n, 'x') + t + std::string(n % 7, 'y') + "\"]", n };
            run_custom("record", battery::pack(in));
        }
    }
    for (int c = 0; c < 256; ++c) {
        if (!mine(i++)) continue;
        const std::string b(1, static_cast<char>(c));
        run_custom("record", battery::pack({ "[" + b + "1" + b + "]", 1 }));
        run_custom("record", battery::pack({ "[\"" + b + "\",\"\\" + b + "\"]" + b, 2 }));
        run_custom("record", battery::pack({ "{\"" + b + "\":\"1" + b + "\",\"a\":[\"" + b + "5\"]}", 3 }));
        run_custom("record", battery::pack({ "[1" + b + "2]", 4 }));
    }
}
}
