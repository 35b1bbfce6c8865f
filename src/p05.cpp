// P05: the result does not depend on the container, its position or the vector width.
#define PBT_IMPLEMENT
#include "model.hpp"
#include "p05.hpp"

using namespace model;

const char* const pbt::property_id = "P05";

#define CONFIG(name) const std::vector<p05::Entry>& entries_json_##name();
#include "p05_configs.inc"
#undef CONFIG

struct Config
{
    const char* name;
    const std::vector<p05::Entry>& entries;
};
static const std::vector<Config>& configs()
{
    static const std::vector<Config> c = {
#define CONFIG(name) { #name, entries_json_##name() },
#include "p05_configs.inc"
#undef CONFIG
    };
    return c;
}

// level 0: the cheap entries; 1: all but files; 2: all
static bool check_text(const std::string& text, bool jsonc, uint64_t junk, int level)
{
    const std::optional<V> m = parse(text, jsonc);
    const std::string expected = m ? dump(*m) : "";
    for (const Config& c : configs()) {
        for (const p05::Entry& e : c.entries) {
            if (level == 0 && e.heavy) continue;
            if (level < 2 && !strcmp(e.name, "file")) continue;
            std::string out;
            const bool ok = e.fn(text, jsonc, junk, out);
            PBT_CHECK(ok == m.has_value(), c.name << ", " << e.name << (jsonc ? ", with comments" : "") << ", surroundings " << junk << ": " << (ok ? "accepted " : "rejected ") << pbt::printable(text));
            PBT_CHECK(out == expected, c.name << ", " << e.name << (jsonc ? ", with comments" : "") << ", surroundings " << junk << ": " << pbt::printable(text) << " gave " << pbt::printable(out) << " instead of " << pbt::printable(expected));
        }
    }
    return m.has_value();
}

void pbt::property(Source& s)
{
    const bool jsonc = s.chance(40);
    std::string text;
    if (s.chance(30)) {
        // long strings with few special bytes
        text = "[\"";
        for (size_t n = s.below(4); n > 0; --n) {
            text += gen_bytes_of(s, "abcxyz 0~\x7f", gen_span(s));
            text += s.pick({ "\\n", "\\\"", "\\\\", "\\u00e9", "\\ud83d\\ude00", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x80", "\xa2", "\xdc", "!", "#", "[", "]", " ", "\x1f", "\"", "\\", "\"", "\"]" });
        }
        text += gen_bytes_of(s, "abcxyz 0~\x7f", gen_span(s));
        text += s.pick({ "\"]", "\"]", "\"]", "\"", "\" ]", "\\\"]", "]", "\",1]" });
        pbt::label("long strings");
    }
    else {
        DocClass cls;
        text = gen_text(s, jsonc, cls);
        static const char* const names[] = { "valid", "mutated", "soup", "bytes" };
        pbt::label(names[cls]);
    }
    const uint64_t junk = s.below(1 << 16);
    const bool file = s.chance(5);
    pbt::note("text", text);
    const bool ok = check_text(text, jsonc, junk, file ? 2 : 1);
    pbt::label(ok ? "accepted everywhere" : "rejected everywhere");
    if (file) pbt::label("files");
    if (text.find('"') != std::string::npos) {
        pbt::nontrivial(hash_bytes(text, junk));
        if (text.size() < 150 && s.size() > 50) pbt::sample(text);
    }
    if (s.chance(5) && text.size() < 200) {
        pbt::label("every offset");
        for (uint64_t o = 0; o < 64; ++o) check_text(text, jsonc, o + 64 * s.below(100), 0);
    }
}

void pbt::custom(const std::string&, const std::string& payload)
{
    if (payload.empty()) return;
    // first byte: the surroundings
    const std::string text = payload.substr(1);
    const uint64_t junk = static_cast<unsigned char>(payload[0]) * 977;
    pbt::nontrivial(hash_bytes(text));
    check_text(text, false, junk, 0);
    check_text(text, true, junk, 0);
}

void pbt::directed()
{
    uint64_t index = 0;
    const auto put = [&](const std::string& text) {
        ++index;
        if (mine(index)) run_custom("text", static_cast<char>(mix(index)) + text);
    };
    // one special byte anywhere in strings of all lengths
    const std::string specials("\"\\\x1f\x00\x01\x20\x21\x23\x5b\x5d\x7f\x80\x9f\xa0\xa2\xdc\xff", 17);
    const size_t max = g_tier_thorough ? 140 : 72;
    for (size_t len = 1; len <= max; ++len) {
        for (size_t at = 0; at < len; ++at) {
            for (char c : specials) {
                if (!g_tier_thorough && len > 36 && at > 3 && at + 3 < len && at % 16 > 1 && at % 16 < 15) continue;
                std::string x(len, 'a');
                x[at] = c;
                put("[\"" + x + "\"]");
                if (c == '\\') {
                    x.insert(at + 1, "n");
                    put("{\"" + x + "\":1}");
                }
            }
        }
    }
    // all pairs of neighbouring bytes, so that no carry or sign of one lane can leak into another
    for (int a = 0; a < 256; ++a) {
        for (int b = 0; b < 256; ++b) {
            std::string x((a + b) % 19, 'z');
            x += static_cast<char>(a);
            x += static_cast<char>(b);
            x.append((a * 7 + b) % 23, 'y');
            put("[\"" + x + "\"]");
            if (g_tier_thorough) {
                put("[\"" + x + x + "\"]");
                put("[\"" + x + std::string(1, static_cast<char>(a)) + "\"]");
            }
        }
    }
}
