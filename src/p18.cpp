// Reading shared values from many threads is safe. Built with ThreadSanitizer.
#define PBT_IMPLEMENT
#include <sys/wait.h>

#include <atomic>
#include <thread>

#include "battery_gen.hpp"

namespace pbt
{
const char* const property_id = "P18";
using battery::Input;

// What all threads look at
struct Shared
{
    std::vector<Input> inputs;
    std::vector<json::value> values;
    json::array array;
    json::object object;
    std::vector<std::string> words;
    std::map<std::string, std::vector<int>> numbers;
    std::optional<battery::Sheet> sheet;
};

struct Op
{
    size_t what, which;
    uint64_t param;
};
static const char* const op_names[] = { "read a shared value", "convert a shared value", "parse", "build", "edit a copy of a shared value", "edit a value handed over", "enums", "enum names", "floating numbers", "read shared array and object",
    "copy, compare and print shared values", "convert shared containers and structs", "paths", "refused operations on a shared value" };
static constexpr size_t op_count = sizeof op_names / sizeof *op_names;

static std::string perform(const Op& op, const Shared& sh, json::value& handed)
{
    battery::Out o;
    const Input& in = sh.inputs[op.which % sh.inputs.size()];
    const json::value& v = sh.values[op.which % sh.values.size()];
    switch (op.what) {
    case 0: battery::reading(o, v, op.param); break;
    case 1: battery::converting(o, v); break;
    case 2: battery::parsing(o, in.text); break;
    case 3: battery::building(o, in.text, op.param); break;
    case 4: battery::editing(o, v, in.text, op.param); break;
    case 5: battery::editing(o, std::move(handed), in.text, op.param); break;
    case 6: battery::enums(o, in.text, op.param); break;
    case 7: battery::enum_names(o); break;
    case 8: battery::floating(o, in.text, op.param); break;
    case 9: {
        for (const json::value& x : sh.array) o.line("element", x.to_string());
        for (const auto& [k, x] : sh.object) o.line("member", k + x.to_string());
        o.line("array", sh.array.to_string() + sh.array.format(3) + battery::attempt([&] { return sh.array.at(op.param % 5).to_string(); }));
        o.line("object", sh.object.to_string() + sh.object.format() + battery::attempt([&] { return sh.object.at("a").to_string(); }));
        o.flag("contains", sh.object.contains("a"));
        o.line("get", sh.object.get("a", "x", "dflt") + sh.array.get(0, "dflt"));
        o.flag("equal", sh.array == json::array(sh.array) && sh.object == json::object(sh.object));
        o.line("as", battery::attempt([&] { return battery::show(static_cast<std::vector<std::string>>(sh.array)); }));
        break;
    }
    case 10: {
        json::value a = v;
        const json::value b = sh.values[(op.which + 1) % sh.values.size()];
        o.flag("equal", a == v);
        o.flag("equal", a == b);
        std::ostringstream s;
        s << v << sh.array << sh.object;
        o.line("stream", s.str());
        a = b;
        o.line("sum", battery::attempt([&] { return (v + sh.array).to_string(); }));
        o.line("merged", battery::attempt([&] { return (v | sh.object).to_string(); }));
        o.line("sum", (sh.array + json::array(sh.array)).to_string());
        o.line("merged", (sh.object | json::object { { "z", 1 } }).to_string());
        break;
    }
    case 11: {
        o.line("words", json::value(sh.words).to_string());
        o.line("words", json::array(sh.words).format(2));
        o.line("numbers", json::value(sh.numbers).to_string());
        o.line("numbers", json::object(sh.numbers).to_string());
        if (sh.sheet) o.line("sheet", battery::attempt([&] { return json::value(*sh.sheet).to_string(); }));
        std::string bad;
        battery::Sheet mine;
        o.flag("check", mine.check_json(v, bad));
        o.line("bad", bad);
        o.flag("from", mine.from_json(v, bad));
        break;
    }
    case 12: battery::paths(o, in.text, op.param); break;
    default:
        for (size_t i = 0; i < 3; ++i) {
            o.line("at", battery::attempt([&] { return v.at(i + 1000).to_string(); }));
            o.line("at", battery::attempt([&] { return v.at("no such name").to_string(); }));
            o.line("as", battery::attempt([&] { return battery::show(v.as<std::tuple<int, std::nullptr_t, std::string>>()); }));
            o.line("as", battery::attempt([&] { return battery::show(v.as_integer()); }));
            o.line("find", battery::attempt([&] { return battery::show(v.find<bool>("no such name")); }));
        }
    }
    return std::move(o.t);
}

// In a process of its own: what is set up on first use is set up here, by whichever thread comes first.
static std::string together(const std::vector<Input>& inputs, const std::vector<std::vector<Op>>& plans)
{
    Shared sh;
    sh.inputs = inputs;
    for (const Input& in : inputs) {
        std::optional<json::value> p = json::parsec(in.text);
        sh.words.push_back(in.text);
        if (p && p->is_array()) sh.array += p->as_array();
        if (p && p->is_object()) sh.object |= p->as_object();
        sh.values.push_back(p ? std::move(*p) : json::value(json::object { { "a", in.text }, { "x", json::array { 1, "Red" } } }));
        sh.numbers[in.text.substr(0, 5)] = { static_cast<int>(in.param), 2 };
    }
    sh.sheet.emplace();
    sh.sheet->spots.resize(2);
    sh.sheet->flags["on"] = true;
    std::vector<std::vector<json::value>> handed(plans.size());
    std::vector<std::vector<std::string>> got(plans.size());
    for (size_t t = 0; t < plans.size(); ++t) {
        for (const Op& op : plans[t]) {
            handed[t].push_back(sh.values[op.which % sh.values.size()]);
            got[t].emplace_back();
        }
    }
    const std::vector<std::vector<json::value>> kept = handed;
    std::string before;
    for (const json::value& v : sh.values) before += battery::show(v.type_name());
    std::vector<std::thread> threads;
    std::atomic<size_t> ready { 0 };
    const Shared& csh = sh;
    for (size_t t = 0; t < plans.size(); ++t) {
        threads.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < plans.size()) {}
            for (size_t i = 0; i < plans[t].size(); ++i) got[t][i] = perform(plans[t][i], csh, handed[t][i]);
        });
    }
    for (std::thread& t : threads) t.join();
    // alone
    for (size_t t = 0; t < plans.size(); ++t) {
        for (size_t i = 0; i < plans[t].size(); ++i) {
            json::value h = kept[t][i];
            const std::string want = perform(plans[t][i], csh, h);
            if (got[t][i] == want) continue;
            size_t at = 0;
            while (at < got[t][i].size() && at < want.size() && got[t][i][at] == want[at]) ++at;
            at = want.rfind('\n', at ? at - 1 : 0) + 1;
            return std::string(op_names[plans[t][i].what]) + ": " + printable(got[t][i].substr(at, 200)) + " instead of " + printable(want.substr(at, 200));
        }
    }
    return "";
}

void property(Source& s)
{
    std::vector<Input> inputs;
    for (size_t n = 1 + s.below(3); n > 0; --n) inputs.push_back(battery::gen_input(s));
    std::vector<std::vector<Op>> plans(2 + s.below(4));
    // all on the same few operations, or on any
    std::vector<size_t> few;
    if (s.flip()) {
        for (size_t n = 1 + s.below(2); n > 0; --n) few.push_back(s.below(op_count));
    }
    uint64_t digest = hash_bytes("P18");
    for (auto& p : plans) {
        for (size_t n = 1 + s.below(4); n > 0; --n) {
            Op op;
            op.what = few.empty() ? s.below(op_count) : s.pick(few);
            op.which = s.below(inputs.size());
            op.param = s.below(1000);
            p.push_back(op);
            digest = mix(digest ^ (op.what * 1000003 + op.which * 10007 + op.param));
            label(std::string("operation: ") + op_names[op.what]);
        }
    }
    for (const Input& in : inputs) digest = hash_bytes(in.text, digest);
    int fd[2];
    if (pipe(fd) != 0) fail("no pipe");
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) fail("no process");
    if (pid == 0) {
        close(fd[0]);
        std::string m;
        try {
            m = together(inputs, plans);
        }
        catch (const std::exception& e) {
            m = std::string("exception: ") + e.what();
        }
        (void)!write(fd[1], m.data(), std::min<size_t>(m.size(), 4000));
        _exit(m.empty() ? 0 : 1);
    }
    close(fd[1]);
    std::string m;
    char b[4096];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) m.append(b, static_cast<size_t>(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string what;
    for (const Input& in : inputs) what += "\n  input " + printable(in.text) + " with " + std::to_string(in.param);
    for (auto& p : plans) {
        what += "\n  thread:";
        for (const Op& op : p) what += std::string(" ") + op_names[op.what] + " (" + std::to_string(op.which) + ", " + std::to_string(op.param) + ");";
    }
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, (WIFEXITED(st) && WEXITSTATUS(st) == 86 ? "data race (see the report of ThreadSanitizer)" : m.empty() ? "the process died" : m) << what);
    label("threads", plans.size());
    nontrivial(digest);
    if (what.size() < 700) sample(what);
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
