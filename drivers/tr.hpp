// Trace recording for the conformance drivers.
//
// A driver registers jobs.  Every job runs in a forked child of its own (so that a crash, an
// uncaught exception or a hang of the code under test becomes an observable event) and writes a
// trace: one JSON object per line.  The traces are judged by TLC against the TLA+ specification;
// the driver itself never decides whether an answer is right.
#ifndef VERIF_TR_HPP
#define VERIF_TR_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <exception>
#include <utility>
#include <algorithm>
#include <random>

namespace tr {

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }       // [0,n)
    uint64_t in(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // [a,b]
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- JSON
struct J {   // a JSON value already rendered
    std::string s;
};
inline std::string jstr(const std::string& x) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c > 0x7e) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
// Integers that do not fit TLC's 32-bit integers are clamped to a sentinel that no legal answer
// uses (-1000000007): an answer that large is never legal where jv() is used.
inline std::string jint(long long x) {
    if (x > 2147483646LL || x < -2147483646LL) return "-1000000007";
    return std::to_string(x);
}
inline std::string jv(bool x) { return x ? "1" : "0"; }
inline std::string jv(char x) { return jint((unsigned char)x); }
inline std::string jv(signed char x) { return jint(x); }
inline std::string jv(unsigned char x) { return jint(x); }
inline std::string jv(short x) { return jint(x); }
inline std::string jv(unsigned short x) { return jint(x); }
inline std::string jv(int x) { return jint(x); }
inline std::string jv(unsigned x) { return jint(x); }
inline std::string jv(long x) { return jint(x); }
inline std::string jv(unsigned long x) { return x > 2147483646UL ? std::string("-1000000007") : std::to_string(x); }
inline std::string jv(long long x) { return jint(x); }
inline std::string jv(unsigned long long x) { return x > 2147483646ULL ? std::string("-1000000007") : std::to_string(x); }
inline std::string jv(const char* x) { return jstr(x); }
inline std::string jv(const std::string& x) { return jstr(x); }
inline std::string jv(const J& x) { return x.s; }
template<class A, class B> std::string jv(const std::pair<A, B>& p);
template<class T> std::string jv(const std::vector<T>& v) {
    std::string r = "[";
    bool first = true;
    for (auto it = v.begin(); it != v.end(); ++it) {
        if (!first) r += ',';
        first = false;
        r += jv((T)*it);
    }
    return r + "]";
}
template<class A, class B> std::string jv(const std::pair<A, B>& p) { return "[" + jv(p.first) + "," + jv(p.second) + "]"; }
// 64-bit value as a string, for equality only
inline J hex64(uint64_t x) { char b[24]; snprintf(b, sizeof b, "\"%llx\"", (unsigned long long)x); return J{b}; }
// 64-bit value as four 16-bit limbs, least significant first
inline J limbs64(uint64_t x) {
    char b[48];
    snprintf(b, sizeof b, "[%u,%u,%u,%u]", (unsigned)(x & 0xffff), (unsigned)((x >> 16) & 0xffff), (unsigned)((x >> 32) & 0xffff), (unsigned)(x >> 48));
    return J{b};
}
template<class V> J limbvec(const V& v) {
    std::string r = "[";
    bool f = true;
    for (auto x : v) { if (!f) r += ','; f = false; r += limbs64((uint64_t)x).s; }
    return J{r + "]"};
}
// bit array of the len low bits of x; anything above is appended as an extra element
inline J bits64(uint64_t x, unsigned len) {
    std::string r = "[";
    for (unsigned i = 0; i < len; ++i) { if (i) r += ','; r += ((x >> i) & 1) ? '1' : '0'; }
    if (len < 64 && (x >> len) != 0) r += ",9";
    return J{r + "]"};
}

struct Ev {
    std::string s;
    explicit Ev(const std::string& op) { s = "{\"op\":" + jstr(op); }
    template<class T> Ev& f(const char* k, const T& v) { s += ",\""; s += k; s += "\":"; s += jv(v); return *this; }
    std::string str() const { return s + "}"; }
};

extern FILE* out;                 // the trace of the running job
inline void emit(const Ev& e) { std::string t = e.str(); t += '\n'; fwrite(t.data(), 1, t.size(), out); }

// Groups implementations that gave the same answer: one event per distinct answer.
struct Group {
    std::string op, args;
    std::vector<std::pair<std::string, std::vector<std::string>>> g;
    Group(const std::string& o) : op(o) {}
    template<class T> Group& arg(const char* k, const T& v) { args += ",\""; args += k; args += "\":"; args += jv(v); return *this; }
    template<class T> void add(const std::string& impl, const T& res) { addj(impl, jv(res)); }
    void addj(const std::string& impl, const std::string& r) {
        for (auto& x : g) if (x.first == r) { x.second.push_back(impl); return; }
        g.push_back({r, {impl}});
    }
    void done() {
        for (auto& x : g) {
            std::string t = "{\"op\":" + jstr(op) + args + ",\"impls\":" + jv(x.second) + ",\"res\":" + x.first + "}\n";
            fwrite(t.data(), 1, t.size(), out);
        }
        g.clear();
    }
};

// ---------------------------------------------------------------- jobs
struct Job { std::string name; std::function<void()> fn; unsigned limit; };
std::vector<Job>& jobs();
inline void job(const std::string& name, std::function<void()> fn, unsigned limit = 60) { jobs().push_back(Job{name, fn, limit}); }

typedef void (*Registrar)();
std::vector<Registrar>& registrars();
struct Reg { explicit Reg(Registrar r) { registrars().push_back(r); } };
#define TR_REGISTER(fn) static tr::Reg tr_reg_##fn(fn)

extern uint64_t seed;
extern bool thorough;
extern std::string scratch;   // directory private to the job (disk)
extern std::string inputs;    // optional input file (behaviours generated by TLC)
} // namespace tr
#endif
