// Line protocol between the runner (tools/vf.py) and a conformance driver.
//   input : "T <id>" starts a test with fresh state; every other line is one operation, "<op> <arg>...".
//           String arguments are written x<hex>.
//   output: one JSON object a line, {"t":id,"i":step,...observation...}.  A line {"t":id,"b":1} precedes a test, so the
//           runner knows which test a crash or a hang belongs to.
#ifndef VERIF_PROTO_HPP
#define VERIF_PROTO_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <locale>
#ifdef VERIF_THREADS
#include <condition_variable>
#include <mutex>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#endif

namespace proto {

// What a driver keeps from one operation to the next, once for each process of spec/Par.tla (0: the one there is without threads).
inline int& slot() { static thread_local int s = 0; return s; }
template <typename T> struct Per { T v[6]; T& own() { return v[slot()]; } };

typedef std::vector<std::string> Args;

inline std::string unhex(std::string const& s) {
    if (s.empty() || s[0] != 'x') { std::fprintf(stderr, "proto: bad string argument %s\n", s.c_str()); std::exit(97); }
    std::string r;
    for (std::size_t i = 1; i + 1 < s.size(); i += 2) r.push_back((char)std::strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

struct Obs {                       // builder of one JSON object
    std::string s;
    void key(std::string const& k) { if (!s.empty()) s += ","; s += "\"" + k + "\":"; }
    static std::string q(std::string const& v) {
        std::string r = "\"";
        char b[8];
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    void str(std::string const& k, std::string const& v) { key(k); s += q(v); }
    void num(std::string const& k, long long v) { key(k); s += std::to_string(v); }
    void unum(std::string const& k, unsigned long long v) { key(k); s += "\"" + std::to_string(v) + "\""; }
    void boolean(std::string const& k, bool v) { key(k); s += v ? "true" : "false"; }
    static std::string d17(double v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
    void dbl(std::string const& k, double v) { key(k); s += "\"" + d17(v) + "\""; }
    void raw(std::string const& k, std::string const& json) { key(k); s += json; }
};

inline std::string jarr(std::vector<std::string> const& parts) {
    std::string r = "[";
    for (std::size_t i = 0; i < parts.size(); i++) { if (i) r += ","; r += parts[i]; }
    return r + "]";
}

// The most significant byte first, whatever the machine's order.
template <typename U> std::string bits_be(U u) {
    std::string r;
    for (int i = (int)sizeof(U) - 1; i >= 0; i--) r.push_back((char)((u >> (8 * i)) & 0xff));
    return r;
}
inline std::string be(std::int16_t v) { return bits_be((std::uint16_t)v); }
inline std::string be(std::int32_t v) { return bits_be((std::uint32_t)v); }
inline std::string be(std::int64_t v) { return bits_be((std::uint64_t)v); }
inline std::string be(float v) { std::uint32_t u; std::memcpy(&u, &v, 4); return bits_be(u); }
inline std::string be(double v) { std::uint64_t u; std::memcpy(&u, &v, 8); return bits_be(u); }
template <typename U> U from_be(std::string const& s, std::size_t at = 0) {
    U u = 0;
    for (std::size_t i = 0; i < sizeof(U); i++) u = (U)((u << 8) | (unsigned char)s.at(at + i));
    return u;
}
inline std::int16_t i16(std::string const& s, std::size_t at = 0) { return (std::int16_t)from_be<std::uint16_t>(s, at); }
inline std::int32_t i32(std::string const& s, std::size_t at = 0) { return (std::int32_t)from_be<std::uint32_t>(s, at); }
inline float f32(std::string const& s, std::size_t at = 0) { std::uint32_t u = from_be<std::uint32_t>(s, at); float f; std::memcpy(&f, &u, 4); return f; }
inline double f64(std::string const& s, std::size_t at = 0) { std::uint64_t u = from_be<std::uint64_t>(s, at); double f; std::memcpy(&f, &u, 8); return f; }

typedef std::function<void(Args const&, Obs&)> Handler;

// One operation and what is seen of it.
template <typename Describe>
std::string perform(std::map<std::string, Handler> const& handlers, std::string const& op, Args const& args, Describe describe) {
    auto h = handlers.find(op);
    if (h == handlers.end()) { std::fprintf(stderr, "proto: unknown operation %s\n", op.c_str()); std::exit(97); }
    Obs o;
    try { h->second(args, o); if (o.s.find("\"res\":") == std::string::npos) o.str("res", "ok"); }
    catch (...) { Obs e; e.str("res", describe()); o = e; }
    return o.s;
}

#ifdef VERIF_THREADS
// Processes of spec/Par.tla.
//   input : "G <id> <mode> <n>" starts a group of n processes; every other line is "<process> <op> <arg>...", in the order of the schedule.
//   modes : one    - all in one thread, in the order of the lines, each process with objects and files of its own
//           turns  - a thread each, in the order of the lines
//           free   - a thread each, nothing orders them
//           shared - the lines of process 0 first; then the others, a thread each and nothing orders them, look at the objects of process 0
struct Line { int p; std::string op; Args args; std::string out; };
template <typename Reset, typename Describe>
void group(std::string const& mode, int n, std::vector<Line>& lines, std::map<std::string, Handler> const& handlers, Reset reset, Describe describe) {
    auto place = [](int p) { std::string d = "p" + std::to_string(p); if (chdir(d.c_str()) != 0) { std::fprintf(stderr, "proto: no directory %s\n", d.c_str()); std::exit(97); } };
    for (int p = 0; p <= n; p++) ::mkdir(("p" + std::to_string(p)).c_str(), 0755);
    if (mode == "one") {
        for (int p = 1; p <= n; p++) { place(p); slot() = p; reset(); if (chdir("..") != 0) std::exit(97); }
        for (Line& l : lines) { place(l.p); slot() = l.p; l.out = perform(handlers, l.op, l.args, describe); if (chdir("..") != 0) std::exit(97); }
        slot() = 0;
        return;
    }
    bool shared = mode == "shared", turns = mode == "turns";
    if (shared) { reset(); for (Line& l : lines) if (l.p == 0) l.out = perform(handlers, l.op, l.args, describe); }
    std::mutex m;
    std::condition_variable cv;
    std::size_t next = 0;
    std::vector<std::thread> ts;
    for (int p = 1; p <= n; p++) ts.emplace_back([&, p] {
        if (!shared) {
            if (unshare(CLONE_FS) != 0) { std::fprintf(stderr, "proto: no working directory of its own for a thread\n"); std::exit(97); }
            place(p); slot() = p; reset();
        }
        for (std::size_t i = 0; i < lines.size(); i++) {
            if (lines[i].p != p) continue;
            if (turns) { std::unique_lock<std::mutex> k(m); cv.wait(k, [&] { return next == i; }); }
            lines[i].out = perform(handlers, lines[i].op, lines[i].args, describe);
            if (turns) { std::unique_lock<std::mutex> k(m); next = i + 1; cv.notify_all(); }
        }
    });
    for (std::thread& t : ts) t.join();
}
template <typename Reset, typename Describe>
int run(int argc, char** argv, std::map<std::string, Handler> const& handlers, Reset reset, Describe describe) {
    if (argc < 2) { std::fprintf(stderr, "usage: driver tests\n"); return 97; }
    // The standard library remembers these conversions without a lock the first time they are made.
    auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic());
    for (int c = 0; c < 256; c++) { ct.narrow((char)c, '?'); ct.widen((char)c); }
    { std::ostringstream o; o << 1 << 1.5 << true << std::endl; double d; std::istringstream i("2.5"); i >> d; }
    std::ifstream in(argv[1]);
    std::string line, id, mode;
    int n = 0;
    std::vector<Line> lines;
    auto finish = [&] {
        if (id.empty()) return;
        std::printf("{\"t\":%s,\"b\":1}\n", id.c_str());
        std::fflush(stdout);
        group(mode, n, lines, handlers, reset, describe);
        for (std::size_t i = 0; i < lines.size(); i++) std::printf("{\"t\":%s,\"i\":%d,%s}\n", id.c_str(), (int)i, lines[i].out.c_str());
        lines.clear();
    };
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string first, a;
        ss >> first;
        if (first == "G") { finish(); ss >> id >> mode >> n; if (n < 1 || n > 5) return 97; continue; }
        Line l;
        l.p = std::stoi(first);
        ss >> l.op;
        while (ss >> a) l.args.push_back(a);
        lines.push_back(l);
    }
    finish();
    std::fflush(stdout);
    return 0;
}
#else
// describe(): class of an exception as the specification names it
template <typename Reset, typename Describe>
int run(int argc, char** argv, std::map<std::string, Handler> const& handlers, Reset reset, Describe describe) {
    if (argc < 2) { std::fprintf(stderr, "usage: driver tests\n"); return 97; }
    std::ifstream in(argv[1]);
    std::string line, id;
    int step = 0;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string op, a;
        Args args;
        ss >> op;
        while (ss >> a) args.push_back(a);
        if (op == "T") {
            id = args.at(0);
            step = 0;
            reset();
            std::printf("{\"t\":%s,\"b\":1}\n", id.c_str());
            std::fflush(stdout);
            continue;
        }
        std::string seen = perform(handlers, op, args, describe);
        std::printf("{\"t\":%s,\"i\":%d,%s}\n", id.c_str(), step++, seen.c_str());
    }
    std::fflush(stdout);
    return 0;
}
#endif
}
#endif
