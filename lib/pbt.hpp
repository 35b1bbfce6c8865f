// Property-based testing engine: every random choice of a case is a number drawn from a Source and
// recorded on a tape. A tape replays the case exactly, and shrinking works on the tape (see run.py).
#pragma once

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <cxxabi.h>

namespace pbt
{
// ---------------------------------------------------------------- allocation accounting
// Replaced operator new: counts live allocations, and can be told to fail the k-th one.
struct AllocState
{
    long live = 0;
    bool armed = false;
    long countdown = 0; // fails when it reaches 0
    long seen = 0;
    bool fired = false;
    unsigned long long calls = 0, bytes = 0; // asked for so far
};
inline thread_local AllocState g_alloc;

// ---------------------------------------------------------------- failures
struct Failure
{
    std::string message;
};

[[noreturn]] inline void fail(const std::string& message)
{
    throw Failure { message };
}

// ---------------------------------------------------------------- status shared with the driver
struct Status
{
    static constexpr size_t max_tape = 1 << 18;
    static constexpr size_t max_custom = 1 << 20;
    uint64_t state; // 0 idle, 1 in a generated case, 2 in a custom case
    uint64_t case_index;
    uint64_t tape_len;
    uint64_t custom_kind_len;
    uint64_t custom_len;
    char custom_kind[64];
    char custom[max_custom];
    uint64_t tape[max_tape];
};
inline Status* g_status = nullptr;

// ---------------------------------------------------------------- statistics
struct Stats
{
    uint64_t evaluations = 0;
    uint64_t discarded = 0;
    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> nontrivial;
    std::vector<std::string> samples;
    size_t max_samples = 6;
};
inline Stats g_stats;
inline bool g_verbose = false;          // replay: print the notes
inline bool g_quiet_stats = false;      // re-execution of a case: don't count
inline int g_tier_thorough = 0;
inline uint64_t g_worker = 0, g_workers = 1;
inline uint64_t g_scale = 100;          // percentage applied to the sizes of directed enumerations

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash_bytes(std::string_view s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return mix(h ^ s.size());
}

// The engine's own bookkeeping must not look like a leak of the code under test.
struct Untracked
{
    AllocState saved;
    Untracked() : saved(g_alloc) { g_alloc.armed = false; }
    ~Untracked() { g_alloc = saved; }
};

inline void label(const char* name, uint64_t n = 1)
{
    if (g_quiet_stats) {
        return;
    }
    Untracked u;
    g_stats.labels[name] += n;
}
inline void label(const std::string& name, uint64_t n = 1)
{
    label(name.c_str(), n);
}

// Marks the current case as non-trivial by the property's rule; `digest` identifies it.
inline void nontrivial(uint64_t digest)
{
    if (g_quiet_stats) {
        return;
    }
    Untracked u;
    g_stats.nontrivial.insert(digest);
}

inline std::string printable(std::string_view s, size_t max = 400)
{
    std::string out;
    for (unsigned char c : s) {
        if (out.size() > max) {
            out += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c == '\\') {
            out += "\\\\";
        }
        else if (c >= 0x20 && c < 0x7f) {
            out.push_back(static_cast<char>(c));
        }
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            out += b;
        }
    }
    return out;
}

inline void note(const char* what, std::string_view text)
{
    if (!g_verbose) {
        return;
    }
    Untracked u;
    printf("  %s: %s\n", what, printable(text, 4000).c_str());
    fflush(stdout);
}

inline bool want_sample()
{
    return !g_quiet_stats && g_stats.samples.size() < g_stats.max_samples;
}
inline void sample(std::string_view text)
{
    if (!want_sample()) {
        return;
    }
    Untracked u;
    g_stats.samples.push_back(printable(text, 300));
}

// ---------------------------------------------------------------- choices
class Source
{
public:
    // random
    explicit Source(uint64_t seed, uint64_t size) : _state(seed), _size(size) {}
    // replay
    explicit Source(std::vector<uint64_t> tape, uint64_t size) : _replay(true), _in(std::move(tape)), _size(size) {}

    // uniform in [0, n)
    uint64_t below(uint64_t n)
    {
        if (n <= 1) {
            return 0;
        }
        uint64_t v = 0;
        if (_replay) {
            v = _pos < _in.size() ? _in[_pos] : 0;
            if (v >= n) {
                v %= n;
            }
        }
        else {
            _state += 0x9e3779b97f4a7c15ull;
            v = static_cast<uint64_t>((static_cast<unsigned __int128>(mix(_state)) * n) >> 64);
        }
        if (g_status && _pos < Status::max_tape) {
            g_status->tape[_pos] = v;
            g_status->tape_len = _pos + 1;
        }
        ++_pos;
        return v;
    }
    // any 64 bit value
    uint64_t bits() { return (below(1ull << 32) << 32) | below(1ull << 32); }
    // inclusive
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    // true with probability num/den; false is the simplest
    bool chance(uint64_t num, uint64_t den = 100) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T, size_t N>
    const T& pick(const T (&v)[N]) { return v[below(N)]; }
    template <typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // index with the given weights; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t sum = 0;
        for (unsigned x : w) {
            sum += x;
        }
        uint64_t r = below(sum);
        size_t i = 0;
        for (unsigned x : w) {
            if (r < x) {
                return i;
            }
            r -= x;
            ++i;
        }
        return 0;
    }
    // list lengths: one choice per element, so that shrinking can delete elements
    bool more(uint64_t mean) { return below(mean + 1) != 0; }
    // a length in [0, max], small ones more often
    size_t length(size_t max)
    {
        switch (weighted({ 4, 4, 2, 1 })) {
        case 0: return below(std::min<size_t>(max, 3) + 1);
        case 1: return below(std::min<size_t>(max, 10) + 1);
        case 2: return below(std::min<size_t>(max, 40) + 1);
        default: return below(max + 1);
        }
    }
    uint64_t size() const { return _size; } // 0..100, grows with the case index
    size_t consumed() const { return _pos; }

private:
    bool _replay = false;
    std::vector<uint64_t> _in;
    uint64_t _state = 0;
    size_t _pos = 0;
    uint64_t _size;
};

// ---------------------------------------------------------------- what a harness defines
void property(Source& s);                                              // one generated case
void custom(const std::string& kind, const std::string& payload);      // one directed case
void directed();                                                       // runs directed cases through run_custom()
extern const char* const property_id;

inline std::string describe_current_exception()
{
    int st = 0;
    const std::type_info* t = abi::__cxa_current_exception_type();
    char* d = t ? abi::__cxa_demangle(t->name(), nullptr, nullptr, &st) : nullptr;
    std::string s = d ? d : "?";
    free(d);
    return s;
}

inline void arm_cpu_guard(int seconds)
{
    itimerval it {};
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline int g_cpu_guard = 40;

// Runs f, turning everything it can do into nothing or a Failure.
template <typename F>
inline void guarded(F&& f)
{
    try {
        f();
    }
    catch (const Failure&) {
        g_alloc.armed = false;
        throw;
    }
    catch (const std::exception& e) {
        g_alloc.armed = false;
        throw Failure { "unexpected exception " + describe_current_exception() + ": " + e.what() };
    }
    catch (...) {
        g_alloc.armed = false;
        throw Failure { "unexpected exception " + describe_current_exception() };
    }
}

inline bool g_check_leaks = true;

// A case that leaves more live allocations than it found leaks, if it does so each time it is run.
template <typename F>
inline void leak_checked(F&& run)
{
    const long before = g_alloc.live;
    guarded(run);
    if (!g_check_leaks || g_alloc.live <= before) {
        return;
    }
    for (int i = 0; i < 3; ++i) {
        const long b = g_alloc.live;
        g_quiet_stats = true;
        try {
            guarded(run);
        }
        catch (...) {
            g_quiet_stats = false;
            throw;
        }
        g_quiet_stats = false;
        if (g_alloc.live <= b) {
            return;
        }
    }
    fail("memory leak: each execution of the case leaves allocations behind");
}

inline void run_custom(const std::string& kind, const std::string& payload)
{
    if (g_status) {
        g_status->state = 2;
        g_status->custom_kind_len = std::min(kind.size(), sizeof g_status->custom_kind);
        memcpy(g_status->custom_kind, kind.data(), g_status->custom_kind_len);
        g_status->custom_len = std::min(payload.size(), Status::max_custom);
        memcpy(g_status->custom, payload.data(), g_status->custom_len);
    }
    ++g_stats.evaluations;
    arm_cpu_guard(g_cpu_guard);
    leak_checked([&] { custom(kind, payload); });
}

// directed enumerations are split between the workers
inline bool mine(uint64_t index)
{
    return index % g_workers == g_worker;
}

inline std::string unhex(const std::string& h)
{
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) {
        s.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
    }
    return s;
}

inline std::string json_str(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o.push_back('\\');
            o.push_back(static_cast<char>(c));
        }
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else {
            o.push_back(static_cast<char>(c));
        }
    }
    return o + "\"";
}

inline void write_stats(const std::string& path, const std::string& fail_message, const char* where)
{
    Untracked u;
    FILE* f = fopen((path + ".json").c_str(), "w");
    if (!f) {
        _exit(90);
    }
    fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"failed\": %s, \"where\": %s, \"message\": %s, \"labels\": {",
            (unsigned long long)g_stats.evaluations, (unsigned long long)g_stats.discarded, *where ? "true" : "false",
            json_str(where).c_str(), json_str(fail_message).c_str());
    bool first = true;
    for (auto& [k, v] : g_stats.labels) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(k).c_str(), (unsigned long long)v);
        first = false;
    }
    fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto& x : g_stats.samples) {
        fprintf(f, "%s%s", first ? "" : ", ", json_str(x).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((path + ".hashes").c_str(), "w");
    for (uint64_t h : g_stats.nontrivial) {
        fwrite(&h, 8, 1, f);
    }
    fclose(f);
}

inline void on_cpu_limit(int)
{
    static const char m[] = "\nPBT-HANG: the CPU time limit of one case was exceeded\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(77);
}

inline int replay_file(const char* path)
{
    FILE* f = fopen(path, "r");
    if (!f) {
        fprintf(stderr, "cannot open %s\n", path);
        return 2;
    }
    std::string text;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
        text.append(buf, n);
    }
    fclose(f);
    std::istringstream in(text);
    std::string line;
    int rc = 2;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string tag;
        ls >> tag;
        try {
            if (tag == "tape:") {
                uint64_t size = 0, v = 0;
                ls >> size;
                std::vector<uint64_t> tape;
                while (ls >> v) {
                    tape.push_back(v);
                }
                arm_cpu_guard(g_cpu_guard);
                rc = 0;
                leak_checked([&] {
                    Source s(tape, size);
                    property(s);
                });
            }
            else if (tag == "custom:") {
                std::string kind, hex;
                ls >> kind >> hex;
                arm_cpu_guard(g_cpu_guard);
                rc = 0;
                std::string payload = unhex(hex);
                note("input", payload);
                leak_checked([&] { custom(kind, payload); });
            }
        }
        catch (const Failure& e) {
            arm_cpu_guard(0);
            printf("FAILED: %s\n", e.message.c_str());
            fflush(stdout);
            return 1;
        }
        arm_cpu_guard(0);
    }
    if (rc == 0) {
        printf("passed\n");
    }
    return rc;
}

inline int pbt_main(int argc, char** argv)
{
    signal(SIGVTALRM, on_cpu_limit);
    uint64_t seed = 1, cases = 1000;
    std::string mode = argc > 1 ? argv[1] : "", out = "pbt-out";
    bool do_directed = true;
    std::string replay;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--worker") g_worker = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") g_workers = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") out = val();
        else if (a == "--no-directed") do_directed = false;
        else if (a == "--thorough") g_tier_thorough = 1;
        else if (a == "--quiet") g_verbose = false;
        else if (a == "--cpu-guard") g_cpu_guard = atoi(val().c_str());
        else replay = a;
    }
    if (mode == "replay") {
        g_verbose = true;
        for (int i = 2; i < argc; ++i) {
            if (!strcmp(argv[i], "--quiet")) g_verbose = false;
        }
        return replay_file(replay.c_str());
    }
    if (mode != "run") {
        fprintf(stderr, "usage: %s run|replay ...\n", argv[0]);
        return 2;
    }

    int fd = open((out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
        return 91;
    }
    g_status = static_cast<Status*>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (g_status == MAP_FAILED) {
        return 92;
    }
    const char* where = "";
    std::string message;
    try {
        if (do_directed) {
            where = "custom";
            guarded([] { directed(); });
        }
        where = "tape";
        const uint64_t base = mix(seed ^ mix(hash_bytes(property_id)));
        for (uint64_t i = 0; i < cases; ++i) {
            const uint64_t index = i * g_workers + g_worker;
            const uint64_t size = std::min<uint64_t>(100, cases < 50 ? 50 : i * 200 / cases + 5);
            g_status->state = 1;
            g_status->case_index = size; // what a replay needs besides the tape
            g_status->tape_len = 0;
            arm_cpu_guard(g_cpu_guard);
            leak_checked([&] {
                Source s(mix(base ^ mix(index)), size);
                property(s);
            });
            ++g_stats.evaluations;
        }
        where = "";
    }
    catch (const Failure& e) {
        message = e.message;
    }
    arm_cpu_guard(0);
    g_status->state = 0;
    write_stats(out, message, where);
    return *where ? 1 : 0;
}
} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_CHECK(cond, ...)                                                                            \
    do {                                                                                                \
        if (!(cond)) {                                                                                  \
            std::ostringstream pbt_oss;                                                                 \
            pbt_oss << __FILE__ ":" PBT_STR(__LINE__) ": " #cond "  " __VA_OPT__(<<) __VA_ARGS__;       \
            pbt::fail(pbt_oss.str());                                                                   \
        }                                                                                               \
    } while (0)

#ifdef PBT_IMPLEMENT
#if !defined(PBT_NO_NEW) && !defined(PBT_FUZZ)
void* pbt_alloc(size_t n, size_t align)
{
    auto& a = pbt::g_alloc;
    ++a.calls;
    a.bytes += n;
    if (a.armed) {
        ++a.seen;
        if (a.countdown > 0 && --a.countdown == 0) {
            a.fired = true;
            throw std::bad_alloc();
        }
    }
    if (n > (1ull << 36)) {
        throw std::bad_alloc();
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) {
        throw std::bad_alloc();
    }
    ++a.live;
    return p;
}
void pbt_free(void* p)
{
    if (p) {
        --pbt::g_alloc.live;
        free(p);
    }
}
void* operator new(size_t n) { return pbt_alloc(n, 0); }
void* operator new[](size_t n) { return pbt_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return pbt_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return pbt_alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try {
        return pbt_alloc(n, 0);
    }
    catch (const std::bad_alloc&) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { pbt_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { pbt_free(p); }
void operator delete(void* p) noexcept { pbt_free(p); }
void operator delete[](void* p) noexcept { pbt_free(p); }
void operator delete(void* p, size_t) noexcept { pbt_free(p); }
void operator delete[](void* p, size_t) noexcept { pbt_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { pbt_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { pbt_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { pbt_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { pbt_free(p); }
#endif
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    // one entry; nothing of the engine's state matters to the next input
    pbt::g_quiet_stats = true;
    try {
        pbt::custom("text", std::string(reinterpret_cast<const char*>(data), size));
    }
    catch (const pbt::Failure& f) {
        fprintf(stderr, "FAILED: %s\n", f.message.c_str());
        abort();
    }
    return 0;
}
#elif !defined(PBT_NO_MAIN)
int main(int argc, char** argv)
{
    return pbt::pbt_main(argc, argv);
}
#endif
#endif
