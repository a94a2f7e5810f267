// C02: word primitives, tables, memory fields and wide integers, on every variant.
#include "tr.hpp"
#include "bits_api.hpp"
BitsApi* api_sdsl_bp(); BitsApi* api_sdsl_bs(); BitsApi* api_sdsl_bb(); BitsApi* api_sdsl_bt(); BitsApi* api_sdsl_bn();
using namespace tr;
typedef uint64_t u64;
static std::vector<BitsApi*> all() {
    std::vector<BitsApi*> v{api_sdsl_bp(), api_sdsl_bt(), api_sdsl_bn()};
    if (__builtin_cpu_supports("sse4.2") && __builtin_cpu_supports("popcnt")) {
        v.push_back(api_sdsl_bs());
        if (__builtin_cpu_supports("bmi2")) v.push_back(api_sdsl_bb());
    }
    return v;
}
static std::string b64(u64 x) { return bits64(x, 64).s; }
static void word_event(u64 x) {
    Group g("word");
    g.arg("x", bits64(x, 64));
    for (auto a : all()) {
        std::string r = "{\"n\":[" + jv(a->cnt(x)) + "," + jv(a->cnt32((uint32_t)x)) + "," + jv(a->cnt32((uint32_t)(x >> 32))) + "," + jv(a->hi(x)) + "," + jv(a->lo(x)) + "," + jv(a->hi11(x)) + "," + jv(a->cnt11(x)) + "]";
        r += ",\"c\":[";
        for (u64 c = 0; c < 2; ++c) {
            u64 c1 = c, c2 = c, c3 = c;
            u64 r1 = a->cnt11(x, c1), r2 = a->cnt10(x, c2), r3 = a->cnt01(x, c3);
            r += (c ? std::string(",") : std::string()) + "[" + jv(r1) + "," + jv(c1) + "," + jv(r2) + "," + jv(c2) + "," + jv(r3) + "," + jv(c3) + "]";
        }
        r += "],\"m\":[" + b64(a->map10(x, 0)) + "," + b64(a->map10(x, 1)) + "," + b64(a->map01(x, 0)) + "," + b64(a->map01(x, 1)) + "," + b64(a->rev(x)) + "]";
        std::vector<u64> s, s2, t0, t1;
        // bits::sel is given its precondition by the word itself, not by cnt
        u64 n = __builtin_popcountll(x);
        for (u64 i = 1; i <= n; ++i) { s.push_back(a->sel(x, i)); s2.push_back(a->sel_(x, i)); }
        u64 p = 0, n0 = 0, n1 = 0;
        for (int k = 0; k < 64; ++k) { u64 b = (x >> k) & 1; if (b && p) { ++n0; p = 0; } else p = b; }
        p = 1;
        for (int k = 0; k < 64; ++k) { u64 b = (x >> k) & 1; if (b && p) { ++n1; p = 0; } else p = b; }
        for (u64 i = 1; i <= n0; ++i) t0.push_back(a->sel11(x, i, 0));
        for (u64 i = 1; i <= n1; ++i) t1.push_back(a->sel11(x, i, 1));
        r += ",\"s\":[" + jv(s) + "," + jv(s2) + "],\"t\":[" + jv(t0) + "," + jv(t1) + "]}";
        g.addj(a->name, r);
    }
    g.done();
}
static std::string ones(const u64* w, int n) {
    std::vector<int> v;
    for (int i = 0; i < 64 * n; ++i) if ((w[i >> 6] >> (i & 63)) & 1) v.push_back(i);
    return jv(v);
}
static u64 rnd(Rng& r) {
    u64 x = r.next();
    switch (r.below(8)) {
        case 0: return x & r.next() & r.next();
        case 1: return x | r.next() | r.next();
        case 2: return x & r.next() & r.next() & r.next() & r.next();
        case 3: return x | r.next() | r.next() | r.next() | r.next();
        case 4: { u64 b = x & 0xff; return b * 0x0101010101010101ULL; }
        case 5: { u64 m = r.below(65); return m == 64 ? ~0ULL : (x & ((1ULL << m) - 1)); }
        case 6: { int a = r.below(64), b = r.below(64); return (~0ULL << a) ^ (~0ULL << b); }
        default: return x;
    }
}
static void field_event(Rng& r, int off, int len) {
    u64 w[4];
    int k = r.below(4);
    for (auto& y : w) y = k == 0 ? 0 : k == 1 ? ~0ULL : r.next();
    u64 x = k == 0 ? ~0ULL : k == 1 ? 0 : r.next();
    std::string m = "[";
    for (int i = 0; i < 4; ++i) m += (i ? "," : "") + b64(w[i]).substr(1, 127);
    m += "]";
    Group g("field");
    g.arg("mem", J{m}).arg("x", bits64(x, 64)).arg("o", off).arg("len", len);
    for (auto a : all()) {
        u64 v1[4], v2[4], v3[4];
        memcpy(v1, w, 32); memcpy(v2, w, 32); memcpy(v3, w, 32);
        a->write_int(v1 + 1, x, off, len);
        u64* p = v2 + 1; uint8_t o = off;
        a->write_int_and_move(p, x, o, len);
        std::vector<long> mv{(long)(p - v2) * 64 + o, o < 64};
        std::string r = "{\"w\":" + ones(v1, 4) + ",\"wm\":" + ones(v2, 4);
        r += ",\"r\":" + b64(a->read_int(v3 + 1, off, len));
        const u64* q = v3 + 1; o = off;
        r += ",\"rm\":" + b64(a->read_int_and_move(q, o, len));
        mv.push_back((q - v3) * 64 + o); mv.push_back(o < 64);
        q = v3 + 1; o = off; a->move_right(q, o, len);
        mv.push_back((q - v3) * 64 + o); mv.push_back(o < 64);
        q = v3 + 2; o = off; a->move_left(q, o, len);
        mv.push_back((q - v3) * 64 + o); mv.push_back(o < 64);
        r += ",\"mv\":" + jv(mv) + "}";
        g.addj(a->name, r);
    }
    g.done();
}
static void scan_event(Rng& r, int maxlen) {
    int n = 1 + r.below(maxlen);
    std::vector<u64> w(n + 2, 0);
    std::vector<int> pos;
    int k = 2 + r.below(4);
    for (int i = 0; i < k; ++i) pos.push_back(r.chance(1, 3) ? (int)(64 * r.below(n) + (r.chance(1, 2) ? 0 : 63)) : (int)r.below(64 * n));
    std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
    for (int p : pos) w[1 + (p >> 6)] |= 1ULL << (p & 63);
    std::vector<int> qs;
    for (int i = 0; i < 10; ++i) {
        int p = pos[r.below(pos.size())];
        int q = r.chance(1, 3) ? p : r.chance(1, 2) ? p - (int)r.below(3) + 1 : (int)r.below(64 * n);
        if (q >= 0 && q < 64 * n) qs.push_back(q);
    }
    w[0] = w[n + 1] = ~0ULL;      // sentinels: reads beyond the data terminate and are visible
    Group g("scan");
    g.arg("ones", pos).arg("q", qs);
    for (auto a : all()) {
        std::vector<std::vector<long>> res;
        for (int q : qs) {
            std::vector<long> e;
            e.push_back(q <= pos.back() ? (long)a->next(w.data() + 1, q) : -1);
            e.push_back(q >= pos.front() ? (long)a->prev(w.data() + 1, q) : -1);
            if (q <= pos.back()) {
                e.push_back(a->read_unary(w.data() + 1 + (q >> 6), q & 63));
                const u64* p = w.data() + 1 + (q >> 6); uint8_t o = q & 63;
                e.push_back(a->read_unary_and_move(p, o));
                e.push_back((p - w.data() - 1) * 64 + o);
                e.push_back(o < 64);
            }
            res.push_back(e);
        }
        g.add(a->name, res);
    }
    g.done();
}
static void tables() {
    const int n[10] = {65, 65, 65, 256, 256, 256, 2048, 64, 92, 1};
    for (int t = 0; t < 10; ++t) {
        if (t == 2 || t == 7) continue;    // auxiliary to sel and lo, which are judged themselves
        Group g("table");
        g.arg("t", t);
        for (auto a : all()) {
            std::vector<J> v;
            for (int i = 0; i < n[t]; ++i) v.push_back(limbs64(a->table(t, i)));
            g.add(a->name, v);
        }
        g.done();
    }
}
static std::string b256(const W4& a, int n = 4) {
    std::string m = "[";
    for (int i = 0; i < n; ++i) m += (i ? "," : "") + b64(a.w[i]).substr(1, 127);
    if (n == 2 && (a.w[2] | a.w[3])) m += ",9";
    return m + "]";
}
static W4 rnd4(Rng& r) {
    W4 a;
    for (auto& x : a.w) x = r.chance(1, 5) ? 0 : r.chance(1, 4) ? ~0ULL : rnd(r);
    if (r.chance(1, 8)) { a.w[2] = a.w[3] = 0; if (r.chance(1, 2)) a.w[1] = 0; }
    return a;
}
static void wide_event(Rng& r, bool two) {
    int n = two ? 2 : 4, W = 64 * n;
    W4 a = rnd4(r), b = r.chance(1, 6) ? a : rnd4(r);
    if (r.chance(1, 6)) { b = a; b.w[r.below(n)] ^= 1ULL << r.below(64); }
    if (two) a.w[2] = a.w[3] = b.w[2] = b.w[3] = 0;
    Group g("wide");
    g.arg("n", W).arg("a", J{b256(a, n)}).arg("b", J{b256(b, n)});
    for (auto p : all()) {
        std::string s = "[";
        auto bn = [&](int o) { return b256(two ? p->bin2(o, a, b) : p->bin(o, a, b), n); };
        for (int o = 0; o < 8; ++o) s += (o ? "," : "") + bn(o);
        if (two) for (int o = 8; o < 12; ++o) s += "," + bn(o);
        else { s += "," + b256(p->raw(a)); s += "," + b256(p->fromword(a.w[0])); }
        g.addj(p->name, "{\"ar\":" + s + "],\"cmp\":" + jv(two ? p->cmp2(a, b) : p->cmp(a, b)) + "}");
    }
    g.done();
    Group h("shift");
    std::vector<int> sh;
    for (int i = 0; i < 4; ++i) sh.push_back(r.chance(1, 2) ? (int)r.below(W) : std::min<int>(W - 1, 64 * r.below(n + 1)));
    h.arg("n", W).arg("a", J{b256(a, n)}).arg("s", sh);
    for (auto p : all()) {
        std::string s = "[";
        for (size_t i = 0; i < sh.size(); ++i) for (int l = 1; l >= 0; --l)
            s += (i || !l ? "," : "") + b256(two ? p->shift2(a, sh[i], l) : p->shift(a, sh[i], l), n);
        h.addj(p->name, s + "]");
    }
    h.done();
    Group q("wquery");
    q.arg("n", W).arg("a", J{b256(a, n)});
    int pc = 0;
    for (int i = 0; i < n; ++i) pc += __builtin_popcountll(a.w[i]);
    for (auto p : all()) {
        if (two && !p->cls()) continue;
        std::vector<u64> v;
        for (int i = 1; i <= pc; ++i) v.push_back(two ? p->sel2(a, i) : p->selw(a, i));
        q.addj(p->name, "[" + jv(two ? p->pop2(a) : p->pop(a)) + "," + jv(two ? p->hi2(a) : p->hiw(a)) + "," + jv(v) + "]");
    }
    q.done();
    Group t("wstr");
    t.arg("n", W).arg("a", J{b256(a, n)});
    for (auto p : all()) {
        std::string s = two ? p->str2(a) : p->str(a);
        std::vector<int> v;
        for (char c : s) v.push_back(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99);
        t.add(p->name, v);
    }
    t.done();
}
static void reg() {
    job("tables", [] { tables(); });
    job("words-structured", [] {
        word_event(0); word_event(~0ULL);
        for (int i = 0; i < 64; ++i) {
            word_event(1ULL << i); word_event(~(1ULL << i)); word_event(~0ULL << i); word_event(~0ULL >> i);
            if (i < 63) { word_event(3ULL << i); word_event(~(3ULL << i)); }
        }
        for (u64 p : {0x5555555555555555ULL, 0x3333333333333333ULL, 0x0f0f0f0f0f0f0f0fULL, 0x00ff00ff00ff00ffULL, 0x0000ffff0000ffffULL, 0x6666666666666666ULL, 0xb6db6db6db6db6dbULL, 0x7777777777777777ULL})
            for (int s = 0; s < 4; ++s) { word_event(p << s); word_event(~(p << s)); }
    });
    for (int byte = 0; byte < 8; ++byte)
        job("words-byte" + jv(byte), [byte] {
            for (u64 b = 0; b < 256; ++b) { word_event(b << (8 * byte)); if (thorough) word_event(~(b << (8 * byte))); }
        });
    int nj = thorough ? 96 : 20;
    for (int j = 0; j < nj; ++j) {
        job("words-" + jv(j), [j] { Rng r(seed * 100 + j); for (int i = 0; i < 120; ++i) word_event(rnd(r)); });
        job("scan-" + jv(j), [j] { Rng r(seed * 100 + j + 7000); for (int i = 0; i < 80; ++i) scan_event(r, i % 8 == 0 ? 12 : 3); });
        job("wide-" + jv(j), [j] { Rng r(seed * 100 + j + 9000); for (int i = 0; i < 25; ++i) wide_event(r, i % 3 == 0); });
    }
    for (int o = 0; o < 64; ++o)
        job("field-" + jv(o), [o] {
            Rng r(seed * 100 + o + 5000);
            for (int t = 0; t < (thorough ? 4 : 1); ++t)
                for (int len = 0; len <= 64; ++len) {
                    if (!thorough && len > 2 && len < 63 && (o + len < 62 || o + len > 67) && !r.chance(1, 2)) continue;
                    field_event(r, o, len);
                }
        });
}
TR_REGISTER(reg);
