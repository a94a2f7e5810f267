// C03, C04, C05: bitvectors of more than 2^32 bits, and sparse ones of up to 2^54.
// The content is a list of segments: count ones, stride apart (HugeBits.tla).
#include "bv_impl.hpp"
using namespace bvi;
using namespace sdsl;
#ifndef BV_NEED
#define BV_NEED 7
#endif
static const bool R = BV_NEED & 2, S = BV_NEED & 4;
struct Seg { u64 start, count, stride; u64 last() const { return start + (count - 1) * stride; } };
typedef std::vector<Seg> Segs;
static std::string pr(u64 x) { return "[" + std::to_string(x >> 24) + "," + std::to_string(x & 0xffffff) + "]"; }
static std::string prs(const std::vector<u64>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += pr(v[i]); } return s + "]"; }
struct In { u64 n; Segs segs; std::string what; };
static In dense()
{
    const u64 G = 1ULL << 32, n = G + (1 << 21) + 777;
    return In{n, {{5, 1000, 3}, {(1ULL << 31) - 100, 3000, 1}, {(1ULL << 31) + 1000000, 9, 1 << 20}, {G - 5000, 3000, 7}, {G + 100000, 200000, 1}, {G + 500000, 2000, 600}, {n - 1, 1, 1}}, "2^32"};
}
static In wide(int k)
{
    const u64 U = 1ULL << k, n = U + 12345;
    return In{n, {{7, 500, 1000003}, {(1ULL << 31) - 50, 200, 1}, {(1ULL << 32) - 10, 100, 3}, {(1ULL << 33) + 17, 3000, 64}, {(1ULL << 40) + 1, 2000, 131071}, {U - 1, 300, 1}, {n - 1, 1, 1}}, "2^" + std::to_string(k)};
}
// runs of ones: more than 2^32 of them
static In ones()
{
    const u64 G = 1ULL << 32, Q = 1ULL << 30, n = G + (1 << 22) + 333;
    return In{n, {{3, Q - 100, 1}, {Q, Q, 1}, {2 * Q + 70, 5000, 3}, {2 * Q + 20000, Q - 30000, 1}, {3 * Q + 1, Q, 1}, {G + 4, (1 << 22) - 3000, 1}, {G + (1 << 22), 150, 2}, {n - 2, 2, 1}}, "ones"};
}
static bit_vector bits_of(const In& x)
{
    bit_vector b(x.n, 0);
    for (auto& s : x.segs) for (u64 j = 0; j < s.count;) if (s.stride == 1 && j + 64 <= s.count) { b.set_int(s.start + j, ~0ULL, 64); j += 64; } else { b[s.start + j * s.stride] = 1; ++j; }
    return b;
}
static std::vector<u64> ones_of(const In& x) { std::vector<u64> r; for (auto& s : x.segs) for (u64 j = 0; j < s.count; ++j) r.push_back(s.start + j * s.stride); return r; }
static void emit_case(const In& x)
{
    std::string s = "[";
    for (auto& g : x.segs) { if (s.size() > 1) s += ','; s += "[" + std::to_string(g.start >> 24) + "," + std::to_string(g.start & 0xffffff) + "," + std::to_string(g.count) + "," + std::to_string(g.stride) + "]"; }
    tr::emit(tr::Ev("case").f("kind", "segs").f("what", x.what).f("n", tr::J{pr(x.n)}).f("segs", tr::J{s + "]"}));
}
static void ask(const In& x, const Obj& o, const std::string& name, bool access = true)
{
    tr::Rng g(tr::seed * 99 + x.n);
    std::vector<u64> pos, ks, k0, k10;
    u64 all = 0;
    for (auto& s : x.segs) all += s.count;
    auto rk = [&](u64 p) { u64 r = 0; for (auto& s : x.segs) if (s.start < p) r += std::min(s.count, (p - s.start - 1) / s.stride + 1); return r; };
    auto ends = [&](u64 p) { u64 r = 0; for (auto& s : x.segs) if (s.stride == 1) r += s.last() + 1 < p; else if (p && s.start < p - 1) r += std::min(s.count, (p - s.start - 2) / s.stride + 1); return r; };
    auto P = [&](u64 p) { if (p <= x.n) pos.push_back(p); };
    for (auto& s : x.segs) { for (u64 p : {s.start, s.last()}) for (int d = -2; d <= 2; ++d) P(p + d); for (int z = 0; z < 12; ++z) P(s.start + g.below(s.last() - s.start + 70)); }
    for (u64 c : {0ULL, 1ULL, 1ULL << 31, 1ULL << 32, (unsigned long long)x.n}) for (int d = -1; d <= 1; ++d) P(c + d);
    for (int z = 0; z < 60; ++z) P(g.below(x.n));
    u64 c = 0;
    for (auto& s : x.segs) { for (u64 k : {c + 1, c + 2, c + s.count / 2 + 1, c + s.count - 1, c + s.count}) if (k >= 1 && k <= all) ks.push_back(k); c += s.count; }
    for (int z = 0; z < 60; ++z) ks.push_back(1 + g.below(all));
    for (unsigned w : {64, 512, 4096, 63 * 32, 15 * 32, 256 * 16}) {      // borders of blocks, in particular the middle ones of a binary search
        auto B = [&](u64 p) { if (p <= x.n) pos.push_back(p); for (u64 k : {rk(p), rk(p) + 1}) if (k >= 1 && k <= all) ks.push_back(k); for (u64 k : {p - rk(p), p - rk(p) + 1}) if (k >= 1 && k <= x.n - all) k0.push_back(k); };
        for (int z = 0; z < 6; ++z) B(g.below(x.n / w) * w);
        for (int t = 0; t < 2; ++t) for (u64 lb = 0, rb = x.n / w + 1; lb < rb;) { u64 m = (lb + rb) / 2; if (m * w <= x.n) B(m * w); if (g.chance(1, 2)) rb = m; else lb = m + 1; }
    }
    for (u64 p : pos) if (p < x.n && rk(p + 1) == rk(p)) { k0.push_back(p - rk(p) + 1); if (p && rk(p) > rk(p - 1)) k10.push_back(ends(p) + 1); }
    if (access) {
        tr::emit(tr::Ev("hsize").f("impl", name).f("res", tr::J{pr(o.size())}));
        std::vector<u64> q, r;
        for (u64 p : pos) if (p < x.n) { q.push_back(p); r.push_back(o.at(p)); }
        tr::emit(tr::Ev("haccess").f("impl", name).f("pos", tr::J{prs(q)}).f("res", r));
        if (o.has_int()) {
            std::vector<u64> w; std::string res = "[";
            for (u64 p : pos) if (p + 40 <= x.n && w.size() < 60) {
                u64 v = o.get_int(p, 40);
                if (w.size()) res += ',';
                w.push_back(p);
                std::vector<u64> bb; for (int j = 0; j < 40; ++j) bb.push_back((v >> j) & 1);
                res += tr::jv(bb);
            }
            tr::emit(tr::Ev("hint").f("impl", name).f("pos", tr::J{prs(w)}).f("res", tr::J{res + "]"}));
        }
    }
    for (int p : {P1, P0, P10}) {
        if (o.has_rank(p)) { std::vector<u64> r; for (u64 i : pos) r.push_back(o.rank(p, i)); tr::emit(tr::Ev("hrank").f("impl", name).f("pat", patname[p]).f("pos", tr::J{prs(pos)}).f("res", tr::J{prs(r)})); }
        if (o.has_select(p)) {
            auto& k = p == P1 ? ks : p == P0 ? k0 : k10;
            std::vector<u64> r; for (u64 i : k) r.push_back(o.select(p, i));
            tr::emit(tr::Ev("hselect").f("impl", name).f("pat", patname[p]).f("k", tr::J{prs(k)}).f("res", tr::J{prs(r)}));
        }
    }
}
template<class BV, bool SEL> static void comp(const std::string& name, unsigned limit = 300, bool on = false)
{
    tr::job("huge " + name + (on ? " ones" : ""), [=] {
        In x = on ? ones() : dense();
        emit_case(x);
        bit_vector b = bits_of(x);
        std::unique_ptr<BV> v(new BV(b));
        b = bit_vector();
        cobj_t<BV, R, S && SEL> o(std::move(v), 0);
        ask(x, o, name);
    }, limit);
}
struct Plain : Obj {       // the plain bitvector with supports that are built one at a time
    const bit_vector& b;
    int pat; bool isr;
    std::function<u64(u64)> f;
    Plain(const bit_vector& v, int p, bool r) : b(v), pat(p), isr(r) {}
    u64 size() const override { return b.size(); }
    u64 at(u64 i) const override { return b[i]; }
    bool has_int() const override { return true; }
    u64 get_int(u64 i, unsigned l) const override { return b.get_int(i, l); }
    bool has_rank(int p) const override { return isr && p == pat; }
    bool has_select(int p) const override { return !isr && p == pat; }
    u64 rank(int, u64 i) const override { return f(i); }
    u64 select(int, u64 i) const override { return f(i); }
};
template<class T> static void sup(const In& x, const bit_vector& b, const char* name, int p, bool isr)
{
    T s(&b);
    Plain o(b, p, isr);
    o.f = [&](u64 i) { return (u64)s(i); };
    ask(x, o, name, false);
}
template<class SD> static void sds(const std::string& name)
{
    for (int k : {33, 41, 50, 54}) tr::job("huge " + name + " " + std::to_string(k), [=] {
        In x = wide(k);
        if (k == 33) x.segs.erase(x.segs.begin() + 3, x.segs.begin() + 5);
        if (k == 41) x.segs[4].count = 900;
        emit_case(x);
        auto on = ones_of(x);
        { std::unique_ptr<SD> v(new SD(on.begin(), on.end())); cobj_t<SD, R, S> o(std::move(v), 0); ask(x, o, name + "(list)"); }
        sd_vector_builder bb(x.n, on.size());
        for (u64 p : on) bb.set(p);
        { std::unique_ptr<SD> v(new SD(bb)); cobj_t<SD, R, S> o(std::move(v), 6); ask(x, o, name + "(builder) stored+loaded"); }
    });
}
template<class T> static void sel(const char* name, int p, bool on = false)
{
    tr::job(std::string("huge ") + name + (on ? " ones" : ""), [=] { In x = on ? ones() : dense(); emit_case(x); bit_vector b = bits_of(x); sup<T>(x, b, name, p, false); }, 300);
}
static void reg()
{
#if BV_NEED & 4
    sel<select_support_mcl<1, 1>>("select_support_mcl<1>", P1);
    sel<select_support_mcl<0, 1>>("select_support_mcl<0>", P0, true);
    sel<select_support_mcl<1, 1>>("select_support_mcl<1>", P1, true);
    if (tr::thorough) { sel<select_support_mcl<10, 2>>("select_support_mcl<10>", P10); sel<select_support_mcl<0, 1>>("select_support_mcl<0>", P0); }
#endif
    for (bool o : {false, true}) tr::job(std::string("huge bit_vector") + (o ? " ones" : ""), [=] {
        In x = o ? ones() : dense();
        emit_case(x);
        bit_vector b = bits_of(x);
        Plain w(b, NPAT, true);
        ask(x, w, "bit_vector");
#if BV_NEED & 2
        sup<rank_support_v<1, 1>>(x, b, "rank_support_v<1>", P1, true); sup<rank_support_v5<1, 1>>(x, b, "rank_support_v5<1>", P1, true);
        if (o) return;
        sup<rank_support_v<0, 1>>(x, b, "rank_support_v<0>", P0, true); sup<rank_support_v<10, 2>>(x, b, "rank_support_v<10>", P10, true);
        sup<rank_support_v5<0, 1>>(x, b, "rank_support_v5<0>", P0, true); sup<rank_support_v5<10, 2>>(x, b, "rank_support_v5<10>", P10, true);
#endif
    }, 300);
    comp<bit_vector_il<512>, true>("bit_vector_il<512>", 300, true);
    comp<rrr_vector<63>, true>("rrr_vector<63>", 300, true);
    comp<hyb_vector<16>, false>("hyb_vector<16>", 300, true);
    comp<bit_vector_il<512>, true>("bit_vector_il<512>");
    comp<rrr_vector<63>, true>("rrr_vector<63>");
    comp<sd_vector<>, true>("sd_vector<>");
    comp<hyb_vector<16>, false>("hyb_vector<16>");
    if (tr::thorough) { comp<rrr_vector<15>, true>("rrr_vector<15>"); comp<rrr_vector<127>, true>("rrr_vector<127>"); comp<bit_vector_il<64>, true>("bit_vector_il<64>"); }
    sds<sd_vector<>>("sd_vector<>");
    sds<sd_vector<rrr_vector<63>>>("sd_vector<rrr_vector<63>>");
}
TR_REGISTER(reg);
