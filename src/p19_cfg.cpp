// The battery in one build configuration: transcripts of the records in a file, as hashes or in full.
#include "battery.hpp"

#include <cstdio>

#ifdef OTHER_UNIT
// another translation unit with the library's header, and with the same instantiations
std::array<std::string, battery::sections> run_elsewhere(const std::string& text, uint64_t param)
{
    return battery::run(text, param);
}
#else
#ifdef TWO_UNITS
std::array<std::string, battery::sections> run_elsewhere(const std::string& text, uint64_t param);
#endif

static uint64_t hash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h ^ s.size();
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[1], "rb");
    FILE* out = strcmp(argv[2], "-") ? fopen(argv[2], "wb") : nullptr;
    if (!f) return 2;
    uint32_t n = 0;
    while (fread(&n, sizeof n, 1, f) == 1) {
        std::string r(n, 0);
        if (fread(r.data(), 1, n, f) != n) return 2;
        uint64_t param = 0;
        for (size_t i = 0; i < 8 && i < r.size(); ++i) param |= static_cast<uint64_t>(static_cast<unsigned char>(r[i])) << (8 * i);
        const std::string text = r.size() > 8 ? r.substr(8) : "";
        auto t = battery::run(text, param);
#ifdef TWO_UNITS
        if (run_elsewhere(text, param) != t) t[0] += "the other translation unit does something else\n";
#endif
        if (out) {
            uint64_t h[battery::sections];
            for (size_t i = 0; i < battery::sections; ++i) h[i] = hash(t[i]);
            fwrite(h, sizeof h, 1, out);
            fflush(out);
        }
        else {
            for (auto& s : t) {
                fwrite(s.data(), 1, s.size(), stdout);
                puts("=== end of section ===");
            }
        }
    }
    return 0;
}
#endif
