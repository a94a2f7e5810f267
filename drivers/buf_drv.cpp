// C07: histories of int_vector_buffer, random and replayed from TLC (BufferMC).
#include "huge.hpp"
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/io.hpp>
#include <fstream>
#include <memory>
using namespace tr;
using namespace sdsl;
typedef uint64_t u64;

struct Cfg { bool ram; };
static std::string rawread(const std::string& f) {
    std::string s;
    if (!f.empty() && f[0] == '@') {
        isfstream in(f, std::ios::in | std::ios::binary);
        if (!in.is_open()) return "!";
        char c;
        while (in.get(c)) s += c;
        return s;
    }
    std::ifstream in(f, std::ios::binary);
    if (!in.good()) return "!";
    s.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    return s;
}
template<uint8_t W> struct H {
    typedef int_vector_buffer<W> B;
    static const int R = 3;
    std::unique_ptr<B> b[R];
    int file[R];           // file number the register works on, -1 none
    bool plain[8];         // format of a file
    int wid[8];            // width given for plain files
    bool exists[8];
    bool isopen[R];
    Rng rng;
    bool ram;
    H(u64 s, bool r) : rng(s), ram(r) {
        for (int i = 0; i < R; ++i) { file[i] = -1; isopen[i] = false; }
        for (int i = 0; i < 8; ++i) { plain[i] = false; exists[i] = false; wid[i] = W ? W : 1; }
        emit(Ev("start").f("tw", (int)W));
    }
    std::string nm(int f) { return (ram && f % 2 == 0 ? std::string("@") : scratch + "/") + "buf" + jv(f); }
    int freefile() {
        for (int t = 0; t < 20; ++t) { int f = rng.below(6); bool u = false; for (int r = 0; r < R; ++r) u |= file[r] == f; if (!u) return f; }
        return 6 + rng.below(2) * 0;
    }
    u64 val(int w) {
        u64 x = rng.next();
        switch (rng.below(6)) { case 0: return 0; case 1: return ~0ULL; case 2: return rng.below(4); case 3: return w < 64 ? (1ULL << w) - 1 : ~0ULL; case 4: return w < 64 ? x & ((1ULL << w) - 1) : x; }
        return x;
    }
    void meta(int r) {
        B& x = *b[r];
        emit(Ev("meta").f("r", r).f("size", x.size()).f("w", x.width()).f("open", x.is_open()).f("fn", x.filename() == (file[r] >= 0 ? nm(file[r]) : std::string(""))));
    }
    void open(int r, int f, bool out, u64 bs, int w, bool pl) {
        if (b[r]) { emit(Ev("drop").f("r", r)); b[r].reset(); file[r] = -1; isopen[r] = false; }
        if (out) { plain[f] = pl; wid[f] = w; exists[f] = true; }
        b[r].reset(new B(nm(f), out ? std::ios::out : std::ios::in, bs, plain[f] ? wid[f] : (W ? W : out ? w : 1 + rng.below(64)), plain[f]));
        file[r] = f; isopen[r] = true;
        emit(Ev("open").f("r", r).f("f", f).f("out", out).f("w", w).f("plain", plain[f]));
        meta(r);
    }
    void deflt(int r) {
        if (b[r]) { emit(Ev("drop").f("r", r)); b[r].reset(); }
        b[r].reset(new B()); file[r] = -1; isopen[r] = false;
        emit(Ev("default").f("r", r));
        emit(Ev("meta").f("r", r).f("size", b[r]->size()).f("w", b[r]->width()).f("open", b[r]->is_open()).f("fn", b[r]->filename() == ""));
    }
    void write(int r, u64 i, u64 v) { (*b[r])[i] = v; emit(Ev("write").f("r", r).f("i", i).f("x", limbs64(v))); }
    void push(int r, u64 v) { b[r]->push_back(v); emit(Ev("write").f("r", r).f("i", -1).f("x", limbs64(v))); }
    void read(int r, u64 i) { u64 v = (*b[r])[i]; emit(Ev("read").f("r", r).f("i", i).f("res", limbs64(v))); }
    void arith(int r, u64 i, int k, u64 x) {
        u64 res = 0, after;
        auto ref = (*b[r])[i];
        static const char* nmz[] = {"pre++", "post++", "pre--", "post--", "+=", "-="};
        switch (k) {
            case 0: res = (u64)++ref; break;
            case 1: res = ref++; break;
            case 2: res = (u64)--ref; break;
            case 3: res = ref--; break;
            case 4: res = (u64)(ref += x); break;
            case 5: res = (u64)(ref -= x); break;
        }
        after = (*b[r])[i];
        emit(Ev("arith").f("r", r).f("i", i).f("k", nmz[k]).f("x", limbs64(x)).f("res", limbs64(res)).f("after", limbs64(after)));
    }
    void copyel(int r, u64 i, int s, u64 j) { auto t = (*b[s])[j]; (*b[r])[i] = t; emit(Ev("copyel").f("r", r).f("i", i).f("s", s).f("j", j)); }
    void cmpel(int r, u64 i, int s, u64 j) { auto x = (*b[r])[i]; auto y = (*b[s])[j]; emit(Ev("cmpel").f("r", r).f("i", i).f("s", s).f("j", j).f("eq", x == y).f("lt", x < y)); }
    void setbuf(int r, u64 bs) { b[r]->buffersize(bs); emit(Ev("setbuf").f("r", r).f("bytes", b[r]->buffersize())); }
    void reset(int r) { b[r]->reset(); emit(Ev("reset").f("r", r)); meta(r); }
    void show(int f) {     // the file as left on disk
        std::string raw = rawread(nm(f));
        if (raw == "!") { exists[f] = false; emit(Ev("file").f("f", f).f("len", -1).f("ok", 0).f("els", std::vector<int>())); return; }
        if (plain[f]) {
            int by = wid[f] / 8;
            std::vector<u64> v;
            for (size_t i = 0; i + by <= raw.size(); i += by) { u64 x = 0; memcpy(&x, raw.data() + i, by); v.push_back(x); }
            emit(Ev("file").f("f", f).f("len", raw.size()).f("ok", 1).f("els", limbvec(v)));
        } else {
            int_vector<W> v;
            bool ok = load_from_file(v, nm(f));
            std::vector<u64> x(v.begin(), v.end());
            emit(Ev("file").f("f", f).f("len", raw.size()).f("ok", ok).f("els", limbvec(x)).f("w", v.width()));
        }
    }
    // a file written by somebody else: an int_vector that shrank, so that the
    // words of the file hold garbage behind the last element
    void mkfile(int f) {
        u64 n = 1 + rng.below(40), k = rng.below(n + 1);
        int w = W ? W : (int)rng.in(1, 64);
        int_vector<W> v(n, 0, w);
        for (u64 i = 0; i < n; ++i) v[i] = rng.chance(1, 2) ? ~0ULL : rng.next();
        v.resize(k);
        store_to_file(v, nm(f));
        std::vector<u64> x(v.begin(), v.end());
        plain[f] = false; exists[f] = true; wid[f] = w;
        emit(Ev("mkfile").f("f", f).f("w", w).f("els", limbvec(x)));
    }
    void close(int r, bool rm) {
        int f = file[r];
        if (rm) exists[f] = false;
        b[r]->close(rm);
        isopen[r] = false;
        emit(Ev("close").f("r", r).f("rm", rm));
        file[r] = f;
        show(f);
        b[r].reset(); file[r] = -1;
        emit(Ev("drop").f("r", r));
        show(f);
    }
    void move(int r, int s, bool ctor) {    // register s takes over r
        if (r == s) return;
        int old = b[s] ? file[s] : -1;
        if (ctor || !b[s]) {
            if (b[s]) { emit(Ev("drop").f("r", s)); b[s].reset(); }
            b[s].reset(new B(std::move(*b[r])));
        } else *b[s] = std::move(*b[r]);
        file[s] = file[r]; isopen[s] = isopen[r]; file[r] = -1; isopen[r] = false;
        emit(Ev("move").f("r", r).f("s", s));
        meta(s);
        emit(Ev("meta").f("r", r).f("size", b[r]->size()).f("w", -1).f("open", b[r]->is_open()).f("fn", b[r]->filename() == ""));
        if (old >= 0) show(old);
    }
    void swap(int r, int s) {
        b[r]->swap(*b[s]);
        std::swap(file[r], file[s]); std::swap(isopen[r], isopen[s]);
        emit(Ev("swap").f("r", r).f("s", s));
        meta(r); meta(s);
    }
    void range(int r, u64 i, u64 n) {
        std::vector<u64> v;
        auto it = b[r]->begin();
        it += i;
        for (u64 k = 0; k < n; ++k) { v.push_back(*it); if (k % 2) ++it; else it++; }
        emit(Ev("range").f("r", r).f("i", i).f("res", limbvec(v)));
    }
    void all(int r) { range(r, 0, b[r]->size()); }
    void walk(int r) {
        long n = b[r]->size(), p = 0;
        if (!n) return;
        std::vector<int> d;
        std::vector<J> res;
        std::vector<long> pos;
        std::unique_ptr<typename B::iterator> it(new typename B::iterator(b[r]->begin()));
        typedef typename B::iterator I;
        for (int k = 0; k < 8; ++k) {
            long q = rng.below(n), dd = q - p;
            d.push_back(dd);
            switch (rng.below(6)) {
                case 0: *it += dd; break;
                case 1: *it -= -dd; break;
                case 2: it.reset(new I(*it + dd)); break;
                case 3: it.reset(new I(*it - (-dd))); break;
                case 4: while (dd > 0) { ++*it; --dd; } while (dd < 0) { --*it; ++dd; } break;
                case 5: while (dd > 0) { (*it)++; --dd; } while (dd < 0) { (*it)--; ++dd; } break;
            }
            p = q;
            auto bg = b[r]->begin(); auto en = b[r]->end();
            res.push_back(limbs64((u64)**it));
            pos.push_back(*it - bg);
            pos.push_back(en - *it);
            pos.push_back(*it == bg);
            pos.push_back(*it != en);
        }
        emit(Ev("walk").f("r", r).f("d", d).f("res", res).f("pos", pos));
    }
};

template<uint8_t W> static void random_hist(u64 s, bool ram, int steps) {
    H<W> h(s, ram);
    Rng& g = h.rng;
    auto bufsz = [&]() -> u64 { static const u64 z[] = {0, 1, 3, 7, 8, 9, 16, 17, 24, 64, 100, 128, 1000}; return z[g.below(13)]; };
    for (int k = 0; k < steps; ++k) {
        int r = g.below(H<W>::R);
        if (!h.b[r] || !h.isopen[r]) {
            if (g.chance(1, 12)) { h.deflt(r); continue; }
            int f = h.freefile();
            if (g.chance(1, 4)) h.mkfile(f);
            bool out = !h.exists[f] || g.chance(1, 3);
            bool pl = (W == 8 || W == 16 || W == 32 || W == 64) ? g.chance(1, 3) : W == 0 ? g.chance(1, 4) : false;
            int w = W ? W : pl ? 8 << g.below(4) : (int)g.in(1, 64);
            h.open(r, f, out, bufsz(), w, pl);
            continue;
        }
        u64 n = h.b[r]->size();
        int w = h.b[r]->width();
        switch (g.below(24)) {
            case 0: case 1: case 2: if (n) { h.write(r, g.below(n), h.val(w)); break; }
            case 3: h.write(r, n + g.below(g.chance(1, 4) ? 60 : 4), h.val(w)); break;
            case 4: case 5: case 6: { int c = g.chance(1, 4) ? g.below(40) : g.below(6); for (int i = 0; i <= c; ++i) h.push(r, h.val(w)); break; }
            case 7: case 8: case 9: if (n) h.read(r, g.below(n)); break;
            case 10: case 11: if (n) h.arith(r, g.below(n), g.below(6), h.val(w)); break;
            case 12: { int q = g.below(3); if (n && h.b[q] && h.isopen[q] && h.b[q]->size()) h.copyel(r, g.below(n), q, g.below(h.b[q]->size())); break; }
            case 13: { int q = g.below(3); if (n && h.b[q] && h.isopen[q] && h.b[q]->size()) h.cmpel(r, g.below(n), q, g.below(h.b[q]->size())); break; }
            case 14: h.setbuf(r, bufsz()); break;
            case 15: if (g.chance(1, 4)) h.reset(r); else h.all(r); break;
            case 16: h.close(r, g.chance(1, 8)); break;
            case 17: { int q = g.below(3); if (q != r) h.move(r, q, g.chance(1, 2)); break; }
            case 18: { int q = g.below(3); if (q != r && h.b[q]) h.swap(r, q); break; }
            case 19: if (n) { u64 i = g.below(n); h.range(r, i, g.below(n - i + 1)); } break;
            case 20: h.walk(r); break;
            case 21: h.meta(r); break;
            case 22: if (n) { u64 i = g.below(n); for (u64 j = 0; j < 4; ++j) { h.write(r, (i + j * 37) % n, h.val(w)); h.read(r, (i + 5 * j) % n); } } break;
            case 23: if (g.chance(1, 2)) h.all(r); break;
        }
        if (h.b[r] && h.isopen[r] && h.b[r]->size() > 260) h.reset(r);
    }
    for (int r = 0; r < H<W>::R; ++r) if (h.b[r] && h.isopen[r]) { h.all(r); h.close(r, false); }
}
template<uint8_t W> static void replay_safe(const std::vector<std::vector<long>>& ops, bool ram, bool plain) {
    H<W> h(1, ram);
    int r = 0;
    const int by = W / 8;
    for (auto& o : ops) {
        long op = o[0], a = o[1], v = o[2];
        switch (op) {
            case 0: h.open(r, 0, true, a * by, W, plain); break;
            case 1: h.write(r, a, v); break;
            case 2: h.push(r, a); break;
            case 3: h.read(r, a); break;
            case 4: h.setbuf(r, a * by); break;
            case 5: h.reset(r); break;
            case 6: h.close(r, false); break;
            case 7: h.open(r, 0, false, a * by, W, plain); break;
            case 8: {
                int q = (r + 1) % 3;
                if (a == 0) { h.move(r, q, true); r = q; }
                else if (a == 1) { if (!h.b[q]) h.deflt(q); h.move(r, q, false); r = q; }
                else { if (!h.b[q] || !h.isopen[q]) h.open(q, 5, true, 3, W, false); h.push(q, 7); h.swap(r, q); std::swap(r, q); h.all(q); h.close(q, false); }
                break;
            }
        }
    }
    if (h.b[r] && h.isopen[r]) { h.all(r); h.close(r, false); }
}
static std::vector<std::vector<std::vector<long>>> behaviours() {
    std::vector<std::vector<std::vector<long>>> all;
    if (inputs.empty()) return all;
    std::ifstream in(inputs);
    std::string s;
    while (std::getline(in, s)) {
        std::vector<std::vector<long>> ops;
        std::vector<long> cur;
        bool num = false, neg = false; long x = 0;
        for (size_t i = 0; i <= s.size(); ++i) {
            char c = i < s.size() ? s[i] : '>';
            if (c >= '0' && c <= '9') { x = (num ? x * 10 : 0) + (c - '0'); num = true; continue; }
            if (num) { cur.push_back(neg ? -x : x); num = false; neg = false; }
            if (c == '-') neg = true;
            if (c == '>' && !cur.empty()) { ops.push_back(cur); cur.clear(); }
        }
        all.push_back(ops);
    }
    return all;
}
// files of more than 2^32 bits and bytes (sparse ones)
template<uint8_t W> static void huge(unsigned w, u64 n, bool plain) {
    typedef int_vector_buffer<W> B;
    hg::Plan p(w, n);
    std::string f = scratch + "/huge";
    {
        B b(f, std::ios::out, 4096, w, plain);
        for (u64 i : p.at) { u64 x = p.value(i); if (p.g.chance(1, 2)) b[i] = x; else { auto it = b.begin(); it += i; *it = x; } }
        if (b.size() < n) b[n - 1] = p.value(n - 1);
        b.buffersize(1 + p.g.below(5000));
        std::vector<u64> q = p.queries(), a;
        for (u64 i : q) a.push_back(b[i]);
        p.emit("written", b.size(), q, {a});
        for (int z = 0; z < 20; ++z) { u64 i = p.at[p.g.below(p.at.size())]; b[i] = p.value(i); }
    }
    {
        B b(f, std::ios::in, 1 + p.g.below(20000), w, plain);
        std::vector<u64> q = p.queries(), a, c;
        for (u64 i : q) { a.push_back(b[i]); auto it = b.begin() + i; c.push_back(*it); }
        p.emit("reopened", b.size(), q, {a, c});
        b.push_back(p.value(n)); p.n = n + 1;
        std::vector<u64> d;
        for (u64 i : q) d.push_back(b[i]);
        q.push_back(n); d.push_back(b[n]);
        p.emit("pushed", b.size(), q, {d});
        b.close(true);
    }
}
static void reg() {
    job("huge-0", [] { huge<0>(37, (1ULL << 27) + 1000, false); });
    job("huge-64", [] { huge<64>(64, (1ULL << 29) + 1000, false); });
    job("huge-64p", [] { huge<64>(64, (1ULL << 29) + 1000, true); });
    job("huge-5", [] { huge<5>(5, (1ULL << 30) + 77, false); });
    job("huge-8p", [] { huge<8>(8, (1ULL << 30) + 77, true); });
    int m = thorough ? 24 : 3;
    for (int k = 0; k < 6 * m; ++k) {
        bool ram = k % 2;
        u64 s = seed * 1000 + k;
#define FAM(W) job("hist-" #W "-" + jv(k), [=] { random_hist<W>(s * 7 + W, ram, 120); });
        FAM(0) FAM(1) FAM(5) FAM(8) FAM(16) FAM(32) FAM(64) FAM(63)
    }
    auto bs = behaviours();
    int i = 0;
    for (auto& o : bs) {
        bool ram = i % 2, plain = (i / 2) % 2;
        job("gen8-" + jv(i), [=] { replay_safe<8>(o, ram, plain); });
        job("gen16-" + jv(i), [=] { replay_safe<16>(o, !ram, plain); });
        job("gen64-" + jv(i), [=] { replay_safe<64>(o, ram, !plain); });
        ++i;
    }
}
TR_REGISTER(reg);
