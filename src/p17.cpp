// Streams and files give exactly the result of their bytes.
#define PBT_IMPLEMENT
#include <dirent.h>
#include <sys/stat.h>

#include <fstream>

#include "mj.hpp"

namespace pbt
{
const char* const property_id = "P17";
using model::V;

static const std::string bom = "\xef\xbb\xbf";

// the outcome of the bytes
static std::optional<V> outcome(std::string c, bool check_bom, bool jsonc)
{
    if (check_bom && c.compare(0, 3, bom) == 0) c.erase(0, 3);
    return model::parse(c, jsonc);
}

// A seekable source that hands its bytes out in pieces, and may fail.
struct Pieces : std::streambuf
{
    enum Fault { none, throws, ends, no_seek, no_seek_end, seek_throws };
    std::string data;
    size_t piece;
    Fault fault;
    size_t at; // where it fails
    size_t pos = 0; // of the end of the get area
    Pieces(std::string d, size_t p, Fault f, size_t a) : data(std::move(d)), piece(p), fault(f), at(a) {}

    void place(size_t p)
    {
        pos = p;
        setg(nullptr, nullptr, nullptr);
    }
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (fault == throws && pos >= at) throw std::runtime_error("I/O error");
        if (fault == ends && pos >= at) return traits_type::eof();
        size_t n = std::min(piece, data.size() - pos);
        if (fault == throws || fault == ends) n = std::min(n, at - pos);
        if (!n) return traits_type::eof();
        char* b = data.data() + pos;
        setg(b, b, b + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        if (fault == seek_throws) throw std::runtime_error("cannot seek");
        if (fault == no_seek || (fault == no_seek_end && d == std::ios::end)) return pos_type(off_type(-1));
        const off_type here = static_cast<off_type>(pos) - (egptr() - gptr());
        const off_type p = (d == std::ios::beg ? 0 : d == std::ios::end ? static_cast<off_type>(data.size()) : here) + o;
        if (p < 0 || p > static_cast<off_type>(data.size())) return pos_type(off_type(-1));
        place(static_cast<size_t>(p));
        return pos_type(p);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};

static void check(const std::optional<json::value>& r, const std::optional<V>& want, const std::string& how, const std::string& c)
{
    const std::optional<V> got = r ? std::optional<V>(mj::to_model(*r)) : std::nullopt;
    PBT_CHECK(got == want, how << " of " << printable(c) << " gives " << mj::show(got) << " not " << mj::show(want));
}

// Those in the scratch folder (and /dev/null): the sanitizer's own thread opens others now and then.
static size_t open_files()
{
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (const dirent* e = readdir(d)) {
            char to[5000];
            const ssize_t len = readlinkat(dirfd(d), e->d_name, to, sizeof to - 1);
            if (len <= 0) continue;
            const std::string_view t(to, static_cast<size_t>(len));
            n += t.find("/p17-") != t.npos || t == "/dev/null";
        }
        closedir(d);
    }
    return n;
}

struct Scratch
{
    std::string dir;
    Scratch()
    {
        Untracked u;
        char t[] = "p17-XXXXXX"; // in the work folder of the check, which removes it
        if (const char* d = mkdtemp(t)) dir = std::filesystem::absolute(d).string();
    }
    ~Scratch()
    {
        std::error_code e;
        if (!dir.empty()) std::filesystem::remove_all(dir, e);
    }
};
static const std::string& scratch()
{
    static Scratch s;
    return s.dir;
}

static void write_file(const std::string& path, const std::string& c)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(c.data(), 1, c.size(), f) != c.size() || fclose(f) != 0) fail("cannot write the scratch file");
}

template <typename Stream> // std::istream or derived from it
static std::optional<json::value> parse_stream(Source& s, Stream& in, bool check_bom, bool jsonc)
{
    if (jsonc) return json::parse(in, check_bom, true);
    if (check_bom) return s.flip() ? json::parse(in, true) : json::parse(in, true, false);
    return s.flip() ? json::parse(in) : json::parse(in, false, false);
}

static void through_stream(Source& s, const std::string& c, bool check_bom, bool jsonc)
{
    const std::optional<V> want = outcome(c, check_bom, jsonc);
    // what was done to the stream before
    const auto before = [&](std::istream& in) -> std::string {
        switch (s.below(6)) {
        case 0: return "fresh stream";
        case 1: {
            const size_t p = s.below(c.size() + 1);
            in.seekg(static_cast<std::streamoff>(p));
            return "stream at " + std::to_string(p);
        }
        case 2: {
            std::string l;
            l.resize(s.below(c.size() + 1));
            in.read(l.data(), static_cast<std::streamsize>(l.size()));
            return "stream after " + std::to_string(l.size()) + " bytes read";
        }
        case 3:
            in.seekg(0, std::ios::end);
            return "stream at the end";
        case 4:
            in.peek();
            return "stream after peek";
        default: { // the end of file was seen, without a failure
            while (in.good() && in.peek() != std::istream::traits_type::eof()) in.get();
            return "stream at end of file";
        }
        }
    };
    switch (s.below(5)) {
    case 0: {
        std::istringstream in(c);
        const std::string how = before(in);
        check(parse_stream(s, in, check_bom, jsonc), want, "string " + how, c);
        // a second time
        if (!in.fail()) check(parse_stream(s, in, check_bom, jsonc), want, "repeated string " + how, c);
        return;
    }
    case 1: {
        std::stringstream io;
        io << c;
        const std::string how = before(io);
        check(parse_stream(s, io, check_bom, jsonc), want, "read and write " + how, c);
        return;
    }
    case 2: {
        const std::string path = scratch() + "/s";
        write_file(path, c);
        std::ifstream in(path, s.flip() ? std::ios::in : std::ios::in | std::ios::binary);
        const std::string how = before(in);
        check(parse_stream(s, in, check_bom, jsonc), want, "file " + how, c);
        return;
    }
    case 3: {
        const std::string path = scratch() + "/s";
        write_file(path, c);
        std::fstream in(path, std::ios::in | std::ios::out);
        const std::string how = before(in);
        check(parse_stream(s, in, check_bom, jsonc), want, "read and write file " + how, c);
        return;
    }
    default: {
        Pieces buf(c, s.pick<size_t>({ 1, 2, 3, 7, 64, 4096 }), Pieces::none, 0);
        std::istream in(&buf);
        const std::string how = before(in);
        check(parse_stream(s, in, check_bom, jsonc), want, "stream in pieces of " + std::to_string(buf.piece) + ", " + how, c);
    }
    }
}

static void through_fault(Source& s, const std::string& c, bool check_bom, bool jsonc)
{
    const size_t at = s.below(c.size() + 1);
    const Pieces::Fault f = s.pick({ Pieces::throws, Pieces::ends, Pieces::no_seek, Pieces::no_seek_end, Pieces::seek_throws });
    Pieces buf(c, s.pick<size_t>({ 1, 3, 16, 4096 }), f, at);
    std::istream in(&buf);
    std::optional<V> want;
    std::string how;
    switch (f) {
    case Pieces::throws: // all was read before the error can show, or the rest is unknown
        how = "a stream failing at " + std::to_string(at);
        if (at == c.size()) want = outcome(c, check_bom, jsonc);
        break;
    case Pieces::ends: // it is shorter than it says
        how = "a stream ending at " + std::to_string(at);
        want = outcome(c.substr(0, at), check_bom, jsonc);
        break;
    default: how = "a stream that cannot be sought"; break;
    }
    label("faulty streams");
    const auto r = parse_stream(s, in, check_bom, jsonc);
    if (f == Pieces::throws && at == c.size() && !r) return; // also right
    check(r, want, how, c);
}

static void through_file(Source& s, const std::string& c, bool check_bom, bool jsonc)
{
    const std::optional<V> want = outcome(c, check_bom, jsonc);
    const std::string path = scratch() + "/" + s.pick({ "f", "f.json", "f with blanks", "f\xc3\xa9" });
    write_file(path, c);
    const size_t files = open_files();
    std::optional<json::value> r;
    std::string how;
    const auto go = [&](const auto& p) {
        if (jsonc) return json::open(p, check_bom, true);
        if (check_bom) return s.flip() ? json::open(p, true) : json::open(p, true, false);
        return s.flip() ? json::open(p) : json::open(p, false, false);
    };
    switch (s.below(4)) {
    case 0: how = "open(string)"; r = go(path); break;
    case 1: how = "open(const char*)"; r = go(path.c_str()); break;
    case 2: how = "open(path)"; r = go(std::filesystem::path(path)); break;
    default: {
        const std::string l = scratch() + "/link";
        unlink(l.c_str());
        if (symlink(path.c_str(), l.c_str()) != 0) fail("cannot make a link");
        how = "open(link)";
        r = go(l);
    }
    }
    check(r, want, how, c);
    PBT_CHECK(open_files() == files, how << " leaves a file open");
    // unchanged
    std::ifstream in(path, std::ios::binary);
    std::string now((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    PBT_CHECK(now == c, how << " changed the file");
    unlink(path.c_str());
    check(go(path), std::nullopt, "open of a file that is gone", c);
}

static std::string gen_content(Source& s, bool jsonc)
{
    model::DocClass cls;
    std::string c = model::gen_text(s, s.chance(80) ? jsonc : !jsonc, cls);
    if (s.chance(10)) { // more than one buffer
        const size_t n = s.pick<size_t>({ 4090, 8180, 8191, 16384, 65536, 70000 });
        const std::string fill = s.flip() ? std::string(n, ' ') : "";
        c = fill.empty() ? "[\"" + std::string(n, 'x') + "\"," + (c.empty() ? "1" : c) + "]" : (s.flip() ? fill + c : c + fill);
    }
    switch (s.weighted({ 6, 4, 1, 1, 1, 1 })) {
    case 1: c = bom + c; break;
    case 2: c = bom + bom + c; break;
    case 3: c = bom.substr(0, 1 + s.below(2)) + c; break;
    case 4: c.insert(s.below(c.size() + 1), bom); break;
    case 5: c = bom.substr(0, s.below(4)); break;
    default: break;
    }
    return c;
}

void property(Source& s)
{
    const bool jsonc = s.flip(), check_bom = s.flip();
    const std::string c = gen_content(s, jsonc);
    note("content", c);
    note("flags", std::string(check_bom ? "check_bom " : "") + (jsonc ? "comments" : ""));
    label(outcome(c, check_bom, jsonc) ? "contents accepted" : "contents rejected");
    if (c.compare(0, 3, bom) == 0) label("contents with a byte order mark");
    for (int i = 0; i < 3; ++i) {
        switch (s.weighted({ 5, 3, 2 })) {
        case 0: through_stream(s, c, check_bom, jsonc); break;
        case 1: through_file(s, c, check_bom, jsonc); break;
        default: through_fault(s, c, check_bom, jsonc);
        }
    }
    // as the text itself
    std::string t = c;
    if (check_bom && t.compare(0, 3, bom) == 0) t.erase(0, 3);
    check(jsonc ? json::parsec(t) : json::parse(t), outcome(c, check_bom, jsonc), "the text", c);
    if (c.size() >= 2) nontrivial(hash_bytes(c, (check_bom ? 2 : 0) + jsonc));
    if (c.size() > 10 && c.size() < 150) sample(c);
}

void custom(const std::string& kind, const std::string& payload)
{
    if (kind == "small") { // a content in every mode, from every position
        for (int flags = 0; flags < 4; ++flags) {
            const bool check_bom = flags & 1, jsonc = flags & 2;
            const auto want = outcome(payload, check_bom, jsonc);
            for (size_t p = 0; p <= payload.size(); ++p) {
                std::istringstream in(payload);
                in.seekg(static_cast<std::streamoff>(p));
                check(json::parse(in, check_bom, jsonc), want, "stream at " + std::to_string(p), payload);
                for (auto f : { Pieces::throws, Pieces::ends }) {
                    Pieces buf(payload, 2, f, p);
                    std::istream fin(&buf);
                    const auto r = json::parse(fin, check_bom, jsonc);
                    if (f == Pieces::ends) check(r, outcome(payload.substr(0, p), check_bom, jsonc), "a stream ending at " + std::to_string(p), payload);
                    else if (r || p < payload.size()) check(r, p < payload.size() ? std::nullopt : want, "a stream failing at " + std::to_string(p), payload);
                }
            }
            const std::string path = scratch() + "/small";
            write_file(path, payload);
            check(json::open(path, check_bom, jsonc), want, "file", payload);
        }
        nontrivial(hash_bytes(payload));
    }
    else { // things that are no readable files
        const std::string d = scratch() + "/dir";
        mkdir(d.c_str(), 0700);
        const std::string fifo = scratch() + "/fifo";
        unlink(fifo.c_str());
        if (mkfifo(fifo.c_str(), 0600) != 0) fail("cannot make a fifo");
        const int fd = open(fifo.c_str(), O_RDWR | O_NONBLOCK);
        (void)!write(fd, "[1]", 3);
        const std::string loop = scratch() + "/loop";
        unlink(loop.c_str());
        (void)!symlink(loop.c_str(), loop.c_str());
        const size_t files = open_files();
        for (int flags = 0; flags < 4; ++flags) {
            for (const std::string& p : { d, fifo, loop, scratch() + "/none", scratch() + "/none/none", std::string(), std::string("/dev/null"), scratch() + std::string(5000, 'x'), d + "/" }) {
                check(json::open(p, flags & 1, flags & 2), std::nullopt, "open(" + p.substr(0, 60) + ")", "");
                check(json::open(std::filesystem::path(p), flags & 1, flags & 2), std::nullopt, "open(path " + p.substr(0, 60) + ")", "");
            }
            std::ifstream closed;
            check(json::parse(closed, flags & 1, flags & 2), std::nullopt, "a stream without a file", "");
            std::istream nothing(nullptr);
            check(json::parse(nothing, flags & 1, flags & 2), std::nullopt, "a stream without a buffer", "");
            std::istringstream bad("[1]");
            bad.setstate(std::ios::badbit);
            check(json::parse(bad, flags & 1, flags & 2), std::nullopt, "a bad stream", "");
        }
        PBT_CHECK(open_files() == files, "a file is left open");
        close(fd);
        nontrivial(hash_bytes("no files"));
    }
}
void directed()
{
    std::vector<std::string> docs;
    for (const std::string& b : { std::string(), std::string("\xef"), std::string("\xef\xbb"), bom, bom + bom, bom + "\xef", std::string("\xef\xbb\xbe"), std::string("\xbb\xbf"), std::string(" ") + bom }) {
        for (const char* t : { "", "[]", "{}", "[1", "[1]", " [1]\n", "[1]x", "{\"a\":[true,null]}", "[1]//c", "/*c*/[1,]", "[\"\xef\xbb\xbf\"]" }) docs.push_back(b + t);
        docs.push_back(b + std::string("[1]\0", 4));
        docs.push_back(b + std::string("\0[1]", 4));
    }
    for (size_t i = 0; i < docs.size(); ++i) {
        if (mine(i)) run_custom("small", docs[i]);
    }
    if (mine(docs.size())) run_custom("no files", "");
}
}
