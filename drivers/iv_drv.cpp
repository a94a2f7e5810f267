// C01: random histories over a few integer vectors of one type; every event carries the
// complete contents of the vectors it touched.
#include "tr.hpp"
#include <map>
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
#include <numeric>
#ifndef PART
#define PART 0
#define PARTS 1
#endif
using namespace sdsl;
typedef uint64_t u64;
static std::string bitsof(const u64* d, u64 n) {
    std::string s = "[";
    for (u64 i = 0; i < n; ++i) { if (i) s += ','; s += ((d[i >> 6] >> (i & 63)) & 1) ? '1' : '0'; }
    return s + "]";
}
template<class V> tr::J dump(const V& v) {
    std::string s = "[" + std::to_string((unsigned)v.width()) + "," + bitsof(v.data(), v.bit_size()) + "," + tr::jv(v.size()) + "," + tr::jv(v.bit_size()) + "," +
        tr::jv(v.capacity()) + "," + tr::jv(v.empty()) + "]";
    return tr::J{s};
}
static tr::J b64(u64 x) { return tr::bits64(x, 64); }
static void catbits(std::string& s, u64 x, unsigned w) {
    tr::J j = tr::bits64(x, w);
    if (j.s.size() <= 2) return;
    if (s.size() > 1) s += ',';
    s += j.s.substr(1, j.s.size() - 2);
}
static u64 rndval(tr::Rng& R, unsigned w) {
    switch (R.below(6)) {
        case 0: return 0;
        case 1: return ~0ULL;
        case 2: return 1ULL << R.below(64);
        case 3: return R.next() >> R.below(64);
        case 4: return (w < 64 ? (1ULL << w) : 0) - 1;
        default: return R.next();
    }
}
template<class V, int W> struct Hist {
    static const bool dyn = (W == 0);
    tr::Rng R;
    unsigned w0, maxbits;
    std::vector<V> reg;
    Hist(u64 s, unsigned w, unsigned mb) : R(s), w0(w), maxbits(mb), reg(4) {}
    u64 rn(unsigned w) {   // number of elements
        u64 m = maxbits / w;
        switch (R.below(6)) {
            case 0: return R.below(3);
            case 1: return (64 * R.in(1, 4)) / w;
            case 2: return (64 * R.in(1, 4) + w - 1) / w;
            default: return R.below(m + 1);
        }
    }
    void rnd(V& v) { for (u64 i = 0; i < (v.capacity() >> 6); ++i) v.data()[i] = R.chance(1, 3) ? (R.chance(1, 2) ? 0 : ~0ULL) : R.next(); }
    void fill(unsigned r) {
        V& v = reg[r]; rnd(v);
        tr::emit(tr::Ev("havoc").f("r", r).f("a", dump(v)));
    }
    void run(const std::string& what, unsigned ops) {
        tr::emit(tr::Ev("case").f("what", what).f("fw", W));
        for (unsigned r = 0; r < 4; ++r) newv(r);
        for (unsigned k = 0; k < ops; ++k) { step(); if (k % 12 == 11) all(); }
        all();
    }
    void all() {
        std::string s = "[";
        for (unsigned r = 0; r < 4; ++r) { if (r) s += ','; s += dump(reg[r]).s; }
        tr::emit(tr::Ev("all").f("d", tr::J{s + "]"}));
    }
    void newv(unsigned r) {
        unsigned w = dyn ? (R.chance(1, 2) ? w0 : (unsigned)R.in(1, 64)) : W;
        u64 n = rn(w), x = rndval(R, w);
        int k = R.below(4);
        if (!dyn && k == 0) k = 1;
        if (k == 0) { V t(n, x, (uint8_t)w); reg[r].swap(t); }
        else if (k == 1) { w = dyn ? 64 : W; n = rn(w); x = 0; V t(n); reg[r].swap(t); }
        else if (k == 2) { w = dyn ? 64 : W; n = 3; V t{rndval(R, w) & bits::lo_set[w], (u64)1, (u64)0}; 
            reg[r].swap(t); tr::emit(tr::Ev("havoc").f("r", r).f("a", dump(reg[r]))); return; }
        else { V t(n, x, (uint8_t)w); reg[r] = std::move(t); }
        tr::emit(tr::Ev("new").f("r", r).f("n", n).f("w", w).f("x", b64(x)).f("a", dump(reg[r])));
        if (R.chance(3, 4)) fill(r);
    }
    void set(std::true_type) {}
    template<class F> void refop(unsigned r, u64 i, F f, int kind, u64 x) { (void)f; (void)r; (void)i; (void)kind; (void)x; }
    void arith(unsigned r, std::true_type /*bool*/) { (void)r; }
    void arith(unsigned r, std::false_type) {
        V& v = reg[r]; unsigned w = v.width(); u64 i = R.below(v.size()), x = rndval(R, w), res = 0;
        int kind = R.below(6); bool viait = R.chance(1, 2);
        auto it = v.begin() + i;
        static const char* nm[] = {"pre++", "post++", "pre--", "post--", "+=", "-="};
        switch (kind) {
            case 0: if (viait) ++*it; else ++v[i]; res = v[i]; break;
            case 1: res = viait ? (*it)++ : v[i]++; break;
            case 2: if (viait) --*it; else --v[i]; res = v[i]; break;
            case 3: res = viait ? (*it)-- : v[i]--; break;
            case 4: if (viait) *it += x; else v[i] += x; res = v[i]; break;
            case 5: if (viait) it[0] -= x; else v[i] -= x; res = v[i]; break;
        }
        tr::emit(tr::Ev("arith").f("r", r).f("i", i).f("kind", nm[kind]).f("x", b64(x)).f("res", tr::bits64(res, w)).f("a", dump(v)));
    }
    void wops(unsigned r, std::false_type) { (void)r; }
    void wops(unsigned r, std::true_type) {
        V& v = reg[r];
        switch (R.below(4)) {
            case 0: { unsigned w = R.chance(1, 10) ? R.below(80) : R.in(1, 64); v.width(w); tr::emit(tr::Ev("width").f("r", r).f("w", w).f("a", dump(v))); break; }
            case 1: util::bit_compress(v); tr::emit(tr::Ev("compress").f("r", r).f("a", dump(v))); break;
            case 2: { if (v.size() * 64 > 6 * maxbits) return; unsigned w = R.in(1, 64); util::expand_width(v, w); tr::emit(tr::Ev("expand").f("r", r).f("w", w).f("a", dump(v))); break; }
            case 3: { // shrink the values first so that compress has an effect
                u64 m = 1 + (R.next() >> R.below(63)); domod(r, m);
                util::bit_compress(v); tr::emit(tr::Ev("compress").f("r", r).f("a", dump(v))); break; }
        }
    }
    void flip(unsigned r, std::false_type) { (void)r; }
    void flip(unsigned r, std::true_type) { reg[r].flip(); tr::emit(tr::Ev("flip").f("r", r).f("a", dump(reg[r]))); }
    typedef std::integral_constant<bool, W == 1> isb;
    typedef std::integral_constant<bool, W == 0> isd;
    void step() {
        unsigned r = R.below(4), s = R.below(4);
        V& v = reg[r]; V& u = reg[s];
        unsigned w = v.width();
        u64 n = v.size();
        switch (R.below(30)) {
            case 0: if (R.chance(1, 3)) newv(r); else fill(r); break;
            case 1: { u64 m = rn(w); v.resize(m); tr::emit(tr::Ev("resize").f("r", r).f("n", m * w).f("a", dump(v))); break; }
            case 2: { u64 m = R.chance(1, 2) && v.bit_size() > 8 ? v.bit_size() - R.below(8) : R.below(maxbits + 1); v.bit_resize(m); tr::emit(tr::Ev("resize").f("r", r).f("n", m).f("a", dump(v))); break; }
            case 3: case 4: case 5: { if (!n) return; u64 i = R.below(n), x = W == 1 ? R.below(2) : rndval(R, w); 
                switch (R.below(4)) { case 0: v[i] = x; break; case 1: *(v.begin() + i) = x; break; case 2: v.begin()[i] = x; break; default: { auto it = v.end(); it -= (n - i); *it = x; } }
                tr::emit(tr::Ev("set").f("r", r).f("i", i * w).f("len", w).f("x", b64(x)).f("a", dump(v))); break; }
            case 6: case 7: { u64 bs = v.bit_size(); if (!bs) return; unsigned len = R.in(1, std::min<u64>(8 * sizeof(typename V::value_type), bs)); u64 i = R.below(bs - len + 1), x = rndval(R, len);
                v.set_int(i, x, len);
                tr::emit(tr::Ev("set").f("r", r).f("i", i).f("len", len).f("x", b64(x)).f("a", dump(v))); break; }
            case 8: { u64 bs = v.bit_size(); if (!bs) return; std::string q = "[";
                for (int k = 0; k < 8; ++k) { unsigned len = R.in(1, std::min<u64>(8 * sizeof(typename V::value_type), bs)); u64 i = R.below(bs - len + 1); if (k) q += ',';
                    q += "[" + tr::jv(i) + "," + tr::jv(len) + "," + tr::bits64(v.get_int(i, len), len).s + "]"; }
                tr::emit(tr::Ev("getint").f("r", r).f("q", tr::J{q + "]"})); break; }
            case 9: if (n) arith(r, isb()); break;
            case 10: if (n) arith(r, isb()); break;
            case 11: { if (!n) return; u64 i = R.below(n), j = R.below(n); if (R.chance(1, 2)) v[i] = v[j]; else *(v.begin() + i) = *(v.begin() + j);
                tr::emit(tr::Ev("assign").f("r", r).f("i", i).f("j", j).f("a", dump(v))); break; }
            case 12: { if (!n) return; u64 i = R.below(n), j = R.below(n); using std::swap; auto a = v.begin() + i, b = v.begin() + j;
                if (R.chance(1, 2)) swap(*a, *b); else std::iter_swap(a, b);
                tr::emit(tr::Ev("swapel").f("r", r).f("i", i).f("j", j).f("a", dump(v))); break; }
            case 13: { if (v.bit_size() != u.bit_size() || v.bit_size() == 0) { // make them match
                    if (!v.bit_size()) return; u.bit_resize(v.bit_size()); tr::emit(tr::Ev("resize").f("r", s).f("n", v.bit_size()).f("a", dump(u))); }
                const char* k[] = {"and", "or", "xor"}; int o = R.below(3);
                if (o == 0) v &= u; else if (o == 1) v |= u; else v ^= u;
                tr::emit(tr::Ev("bitop").f("r", r).f("s", s).f("kind", k[o]).f("a", dump(v)).f("c", dump(u))); break; }
            case 14: flip(r, isb()); break;
            case 15: { int k = R.below(3); if (k == 0) v = u; else if (k == 1) { V t(u); v.swap(t); } else { V t(u); v = std::move(t); }
                tr::emit(tr::Ev("copy").f("r", r).f("s", s).f("a", dump(v)).f("c", dump(u))); break; }
            case 16: { if (r == s) return; if (R.chance(1, 2)) v = std::move(u); else { V t(std::move(u)); v.swap(t); }
                tr::emit(tr::Ev("move").f("r", r).f("s", s).f("a", dump(v)).f("c", dump(u))); break; }
            case 17: { if (R.chance(1, 2)) v.swap(u); else { using std::swap; swap(v, u); }
                tr::emit(tr::Ev("swap").f("r", r).f("s", s).f("a", dump(v)).f("c", dump(u))); break; }
            case 18: case 19: { // comparisons; sometimes of nearly equal vectors
                int k = R.below(4);
                if (k < 3 && r != s) { v = u; tr::emit(tr::Ev("copy").f("r", r).f("s", s).f("a", dump(v)).f("c", dump(u)));
                    if (k == 1 && v.size()) { u64 i = R.below(v.size()); u64 x = W == 1 ? R.below(2) : (u64)v[i] ^ (1ULL << R.below(v.width())); v[i] = x; tr::emit(tr::Ev("set").f("r", r).f("i", i * v.width()).f("len", (unsigned)v.width()).f("x", b64(x)).f("a", dump(v))); }
                    if (k == 2) { u64 m = v.bit_size(); if (m) { u64 d = R.below(std::min<u64>(m, 70)); v.bit_resize(m - d); tr::emit(tr::Ev("resize").f("r", r).f("n", m - d).f("a", dump(v)));
                        v.bit_resize(m); tr::emit(tr::Ev("resize").f("r", r).f("n", m).f("a", dump(v))); } } }
                const V& a = v; const V& b = u;
                std::vector<int> res{a == b, a != b, a < b, a > b, a <= b, a >= b};
                tr::emit(tr::Ev("cmp").f("r", r).f("s", s).f("res", res)); break; }
            case 20: iter(r); break;
            case 21: walk(r); break;
            case 22: { u64 x = R.chance(1, 3) ? (R.chance(1, 2) ? bits::lo_set[w] : 0) : rndval(R, w); util::set_to_value(v, x); tr::emit(tr::Ev("fillval").f("r", r).f("x", b64(x)).f("a", dump(v))); break; }
            case 23: if (R.chance(1, 2)) { if (W == 1) return; util::set_to_id(v); tr::emit(tr::Ev("id").f("r", r).f("a", dump(v))); }
                else { int o = R.below(2); if (o) util::_set_one_bits(v); else util::_set_zero_bits(v); tr::emit(tr::Ev("constbits").f("r", r).f("v", o).f("a", dump(v))); } break;
            case 24: { if (W == 1) return; u64 m = R.chance(1, 2) ? R.in(1, 300) : std::max<u64>(1, rndval(R, w)); domod(r, m); break; }
            case 25: wops(r, isd()); break;
            case 26: case 27: tr::emit(tr::Ev("count").f("r", r).f("res", std::vector<u64>{util::cnt_one_bits(v), util::cnt_onezero_bits(v), util::cnt_zeroone_bits(v)})); break;
            case 28: { u64 bs = v.bit_size(); if (!bs) return; 
                if (R.chance(1, 2)) { // clear a suffix to make the searches long
                    u64 i = R.below(bs); unsigned len = std::min<u64>(8 * sizeof(typename V::value_type), bs - i); v.set_int(i, 0, len); tr::emit(tr::Ev("set").f("r", r).f("i", i).f("len", len).f("x", b64(0)).f("a", dump(v))); }
                std::vector<u64> q, a, b; for (int k = 0; k < 8; ++k) { u64 i = k == 0 ? bs - 1 : k == 1 ? 0 : R.below(bs); q.push_back(i); a.push_back(util::next_bit(v, i)); b.push_back(util::prev_bit(v, i)); }
                tr::emit(tr::Ev("find").f("r", r).f("q", q).f("next", a).f("prev", b)); break; }
            case 29: algo(r, isb()); break;
        }
    }
    void domod(unsigned r, u64 m) {
        V& v = reg[r]; std::vector<u64> q; for (u64 i = 0; i < v.size(); ++i) q.push_back((u64)v[i] / m);   // the quotients are a certificate only
        util::mod(v, m);
        std::string s = "["; if (v.width() > 24) for (u64 i = 0; i < q.size(); ++i) { if (i) s += ','; s += b64(q[i]).s; }
        tr::emit(tr::Ev("mod").f("r", r).f("m", b64(m)).f("q", tr::J{s + "]"}).f("a", dump(v)));
    }
    void algo(unsigned r, std::true_type) { V& v = reg[r]; std::reverse(v.begin(), v.end()); tr::emit(tr::Ev("reverse").f("r", r).f("a", dump(v))); }
    void algo(unsigned r, std::false_type) {
        V& v = reg[r]; u64 n = v.size();
        switch (R.below(3)) {
            case 0: std::reverse(v.begin(), v.end()); tr::emit(tr::Ev("reverse").f("r", r).f("a", dump(v))); break;
            case 1: { if (n > 40) return; std::sort(v.begin(), v.end()); tr::emit(tr::Ev("sort").f("r", r).f("a", dump(v))); break; }
            case 2: { u64 k = R.below(n + 1); std::rotate(v.begin(), v.begin() + k, v.end()); tr::emit(tr::Ev("rotate").f("r", r).f("k", k).f("a", dump(v))); break; }
        }
    }
    void iter(unsigned r) {
        V& v = reg[r]; const V& c = v; unsigned w = v.width();
        std::string all;
        for (int k = 0; k < 7; ++k) {
            std::string s = "[";
            switch (k) {
                case 0: for (u64 i = 0; i < v.size(); ++i) catbits(s, v[i], w); break;
                case 1: for (u64 i = 0; i < c.size(); ++i) catbits(s, c[i], w); break;
                case 2: for (auto it = v.begin(); it != v.end(); ++it) catbits(s, *it, w); break;
                case 3: for (auto it = c.begin(); it != c.end(); it++) catbits(s, *it, w); break;
                case 4: { std::string parts; std::vector<u64> t; for (auto it = v.end(); it != v.begin();) { --it; t.push_back(*it); } for (u64 i = t.size(); i-- > 0;) catbits(s, t[i], w); break; }
                case 5: { auto b = c.begin(); for (u64 i = 0; i < c.size(); ++i) catbits(s, b[i], w); break; }
                case 6: { std::vector<u64> t; auto it = c.end(); while (it != c.begin()) { it--; t.push_back(*it); } for (u64 i = t.size(); i-- > 0;) catbits(s, t[i], w); break; }
            }
            if (k) all += ',';
            all += s + "]";
        }
        auto ve = v.end();
        tr::emit(tr::Ev("iter").f("r", r).f("res", tr::J{"[" + all + "]"}).f("dist", std::vector<long long>{(long long)(ve - v.begin()), (long long)(c.end() - c.begin()), (long long)(c.begin() - c.end())}));
    }
    template<class It> tr::J walkone(It b, u64 n, unsigned w, const std::vector<int>& kinds, const std::vector<long long>& d, u64 p, u64 q) {
        It it = b;
        for (size_t k = 0; k < d.size(); ++k)
            switch (kinds[k]) {
                case 0: ++it; break; case 1: it++; break; case 2: --it; break; case 3: it--; break;
                case 4: it += d[k]; break; case 5: it -= -d[k]; break; case 6: it = it + d[k]; break; case 7: it = it - (-d[k]); break;
            }
        It o = b + (long long)q;
        (void)n; (void)p;
        std::string s = "[" + tr::jv((long long)(it - b)) + "," + tr::jv((long long)(it - o)) + "," + tr::jv(it == o) + "," + tr::jv(it != o) + "," + tr::jv(it < o) + "," + tr::jv(it > o) + "," + tr::jv(it <= o) + "," + tr::jv(it >= o);
        if (p < n) { std::string e = "["; catbits(e, *it, w); s += "," + e + "]"; std::string f = "["; catbits(f, it[(long long)q - (long long)p < (long long)n && q < n ? (long long)q - (long long)p : 0], w); s += "," + f + "]"; }
        return tr::J{s + "]"};
    }
    void walk(unsigned r) {
        V& v = reg[r]; const V& c = v; u64 n = v.size(); u64 pos = 0;
        std::vector<int> kinds; std::vector<long long> d;
        for (int k = 0; k < 10; ++k) {
            int kd = R.below(8); long long t;
            if (kd < 2) { if (pos >= n) continue; t = 1; } else if (kd < 4) { if (pos == 0) continue; t = -1; } else t = (long long)R.below(n + 1) - (long long)pos;
            pos += t; kinds.push_back(kd); d.push_back(t);
        }
        u64 q = R.below(n + 1);
        tr::Group G("walk");
        G.arg("r", r).arg("d", d).arg("q", q);
        G.addj("iterator", walkone(v.begin(), n, v.width(), kinds, d, pos, q).s);
        G.addj("const_iterator", walkone(c.begin(), n, v.width(), kinds, d, pos, q).s);
        G.done();
    }
};
template<class V, int W> void reg(const char* name, unsigned w, int reps, unsigned ops, unsigned mb) {
    std::string nm = name;
    for (int k = 0; k < reps; ++k)
        tr::job(nm + "/" + std::to_string(w) + "/" + std::to_string(k), [=]() {
            Hist<V, W> H(tr::seed * 1000003 + w * 131 + k * 17 + W * 7919, w, mb); H.run(nm, ops);
        });
}
// vectors of more than 2^32 bits: sparse contents, written and read around the places where bit positions need more than 31, 32 bits
template<class V> void huge(const char* name, unsigned w, u64 n) {
    tr::job(std::string("huge ") + name + "/" + std::to_string(w), [=]() {
        tr::Rng g(tr::seed * 7 + w);
        V v(n, 0, w);
        std::map<u64, u64> m;
        std::vector<u64> q, ix, vals;
        std::vector<u64> at = {0, 1, n / 3, (1ULL << 31) / w - 2, (1ULL << 31) / w, (1ULL << 31) / w + 1, (1ULL << 32) / w - 1, (1ULL << 32) / w, (1ULL << 32) / w + 1, (1ULL << 32) / w + 3, n - 2, n - 1};
        for (int z = 0; z < 60; ++z) at.push_back(g.below(n));
        for (u64 i : at) if (i < n) {
            u64 x = g.next() & bits::lo_set[w];
            switch (g.below(5)) {
                case 0: v[i] = x; break;
                case 1: *(v.begin() + i) = x; break;
                case 2: v.set_int(i * w, x, w); break;
                case 3: { auto it = v.end(); it -= n - i; *it = x; break; }
                default: { V& r = v; r[i] = 0; r[i] = r[i] + x; break; }
            }
            m[i] = x;
        }
        if (w == 37) { V c(v); v = V(); v = c; }
        for (auto& e : m) { ix.push_back(e.first); vals.push_back(e.second); for (int d = -2; d <= 2; ++d) if (e.first + d < n) q.push_back(e.first + d); if (e.first * w >= (1ULL << 32)) { q.push_back(e.first - ((1ULL << 32) / w)); } }
        for (int z = 0; z < 60; ++z) q.push_back(g.below(n));
        std::vector<u64> a, b, c, d, dist;
        const V& k = v;
        for (u64 i : q) { a.push_back(k[i]); b.push_back(*(k.begin() + i)); c.push_back(k.get_int(i * w, w)); d.push_back(*(v.begin() + i)); dist.push_back((k.begin() + i) - k.begin()); }
        tr::emit(tr::Ev("huge").f("name", name).f("w", w).f("n", n).f("size", (u64)k.size()).f("bits", tr::limbs64(k.bit_size())).f("idx", ix).f("val", tr::limbvec(vals)).f("q", q)
                 .f("got", tr::J{"[" + tr::limbvec(a).s + "," + tr::limbvec(b).s + "," + tr::limbvec(c).s + "," + tr::limbvec(d).s + "]"}).f("dist", dist));
    }, 300);
}
static void registerJobs() {
    int m = tr::thorough ? 24 : 2; unsigned ops = 100;
#if PART == 0
    for (unsigned w = 1; w <= 64; ++w) reg<int_vector<0>, 0>("int_vector<0>", w, m * ((w % 8 == 0 || w == 1 || w == 63 || w == 33) ? 2 : 1), ops, 260);
    huge<int_vector<0>>("int_vector<0>", 37, (1ULL << 27) + 5); huge<int_vector<0>>("int_vector<0>", 7, (1ULL << 30) - 3); huge<int_vector<0>>("int_vector<0>", 64, (1ULL << 26) + 33);
#elif PART == 1
    huge<bit_vector>("bit_vector", 1, (1ULL << 31) - 5); huge<int_vector<3>>("int_vector<3>", 3, (1ULL << 31) - 5);
    reg<bit_vector, 1>("bit_vector", 1, 10 * m, ops, 260);
    reg<int_vector<2>, 2>("int_vector<2>", 2, 2 * m, ops, 260);
    reg<int_vector<3>, 3>("int_vector<3>", 3, 2 * m, ops, 260);
    reg<int_vector<4>, 4>("int_vector<4>", 4, 2 * m, ops, 260);
    reg<int_vector<7>, 7>("int_vector<7>", 7, 2 * m, ops, 260);
    reg<int_vector<18>, 18>("int_vector<18>", 18, 2 * m, ops, 260);
#else
    huge<int_vector<8>>("int_vector<8>", 8, (1ULL << 29) + 5); huge<int_vector<64>>("int_vector<64>", 64, (1ULL << 26) + 5); huge<int_vector<63>>("int_vector<63>", 63, (1ULL << 26) + (1 << 21));
    reg<int_vector<24>, 24>("int_vector<24>", 24, 2 * m, ops, 260);
    reg<int_vector<33>, 33>("int_vector<33>", 33, 2 * m, ops, 260);
    reg<int_vector<63>, 63>("int_vector<63>", 63, 2 * m, ops, 300);
    reg<int_vector<8>, 8>("int_vector<8>", 8, 4 * m, ops, 260);
    reg<int_vector<16>, 16>("int_vector<16>", 16, 4 * m, ops, 260);
    reg<int_vector<32>, 32>("int_vector<32>", 32, 4 * m, ops, 260);
    reg<int_vector<64>, 64>("int_vector<64>", 64, 4 * m, ops, 330);
#endif
}
TR_REGISTER(registerJobs);
