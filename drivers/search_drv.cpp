// C17: searching, locating and extracting
#include "text_inputs.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <memory>
using namespace sdsl;
using namespace txt;
using tr::Group;
using tr::J;
typedef std::vector<long> lvec;
static int uid = 0;
struct Q {
    std::vector<vec> pat;             // patterns, symbols
    std::vector<Group> cnt, itv, loc, cf;
    struct NQ { u64 l, r; vec q; }; std::vector<NQ> nq; std::vector<Group> ng;
    struct BQ { u64 l, r, c; }; std::vector<BQ> bq; std::vector<Group> bg;
    struct EQ { u64 b, e; }; std::vector<EQ> eq; std::vector<Group> eg;
    bool bytes;
    u64 absent(const Text& x, tr::Rng& g) const {
        for (int z = 0; z < 30; ++z) {
            u64 c = x.tab[g.below(x.tab.size())] + (g.chance(1, 2) ? 1 : -1);
            if (g.chance(1, 4)) c = bytes ? 1 + g.below(255) : g.chance(1, 2) ? x.tab.back() + 1 + g.below(3000) : (x.tab.back() + 256 * g.in(1, 3));
            if (c && c < (bytes ? 256u : (1u << 30)) && x.code(c) < 0) return c;
        }
        return x.tab.back();
    }
    lvec codes(const Text& x, const vec& v) const { lvec r; for (u64 c : v) r.push_back(x.code(c)); return r; }
    vec pattern(const Text& x, tr::Rng& g) const {
        size_t n = x.n() - 1;
        vec p;
        size_t len = g.chance(1, 12) ? g.below(n + 3) : g.chance(1, 2) ? g.below(4) : g.below(13);
        if (g.chance(3, 4) && len <= n) { size_t b = g.below(n - len + 1); for (size_t i = 0; i < len; ++i) p.push_back(x.sym(b + i)); }
        else for (size_t i = 0; i < len; ++i) p.push_back(x.tab.size() > 1 ? x.tab[1 + g.below(x.tab.size() - 1)] : absent(x, g));
        if (!p.empty() && x.tab.size() > 1 && g.chance(1, 4)) p[g.below(p.size())] = x.tab[1 + g.below(x.tab.size() - 1)];
        if (!p.empty() && g.chance(1, 6)) p[g.below(p.size())] = absent(x, g);
        for (u64& c : p) if (!c) c = bytes ? 255 : 77;      // no terminators in patterns
        return p;
    }
    Q(const Text& x, tr::Rng& g, bool small, bool bts) : bytes(bts) {
        size_t n = x.n(), k = small ? 5 : 10;
        pat.push_back(vec());
        { vec w = x.syms(); w.pop_back(); if (n < 300) pat.push_back(w); w.push_back(bytes ? 200 : 9); pat.push_back(w); }
        while (pat.size() < k + 3) pat.push_back(pattern(x, g));
        for (auto& p : pat) {
            cnt.push_back(Group("count")); itv.push_back(Group("interval")); loc.push_back(Group("locate")); cf.push_back(Group("cstfwd"));
            for (Group* q : {&cnt.back(), &itv.back(), &loc.back(), &cf.back()}) q->arg("p", codes(x, p));
        }
        for (size_t i = 0; i < k; ++i) {
            u64 l = g.below(n), r = l + g.below(n - l);
            if (g.chance(1, 4)) { l = 0; r = n - 1; }
            if (g.chance(1, 4)) { size_t z = std::lower_bound(x.t.begin(), x.t.end(), 0) - x.t.begin(); (void)z; u64 c = x.tab.size() > 1 ? 1 + g.below(x.tab.size() - 1) : 0; l = 0; r = 0; bool f = false; for (size_t j = 0; j < n; ++j) if (x.t[x.sa[j]] == c) { if (!f) { l = j; f = true; } r = j; } }
            vec q = pattern(x, g); if (q.size() > 20) q.resize(20);
            nq.push_back(NQ{l, r, q});
            ng.push_back(Group("narrow")); ng.back().arg("l", l).arg("r", r).arg("p", codes(x, q));
            u64 c = g.chance(1, 6) ? absent(x, g) : x.tab[g.below(x.tab.size())];
            bq.push_back(BQ{l, r, c});
            bg.push_back(Group("bstep")); bg.back().arg("l", l).arg("r", r).arg("c", x.code(c));
            u64 b = g.below(n), e = b + g.below(std::min<u64>(n - b, i < 2 ? 600 : 20));
            if (i == 0) { b = 0; e = n - 1; }
            eq.push_back(EQ{b, e});
            eg.push_back(Group("extract")); eg.back().arg("b", b).arg("e", e);
        }
    }
    void done() { for (auto* v : {&cnt, &itv, &loc, &cf, &ng, &bg, &eg}) for (auto& g : *v) g.done(); }
};
template<class C> static typename C::string_type pstr(const vec& p) { typename C::string_type s; for (u64 c : p) s.push_back(c); return s; }
static lvec iv(u64 sz, u64 l, u64 r) { return sz ? lvec{(long)sz, (long)l, (long)r} : lvec{0, -1, -1}; }
template<class V> static vec tov(const V& v) { vec r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
template<class C> static void ask(const Text& x, const std::string& nm, const C& c, Q& q)
{
    typedef typename C::char_type ch;
    const uint8_t W = C::alphabet_type::int_width;
    u64 l, r, s;
    for (size_t k = 0; k < q.pat.size(); ++k) {
        auto p = pstr<C>(q.pat[k]);
        int_vector<W> pv(q.pat[k].size(), 0, 64);
        for (size_t i = 0; i < pv.size(); ++i) pv[i] = q.pat[k][i];
        q.cnt[k].add(nm, count(c, p)); q.cnt[k].add(nm + " it", count(c, p.begin(), p.end())); q.cnt[k].add(nm + " iv", count(c, pv.begin(), pv.end()));
        s = backward_search(c, 0, c.size() - 1, p.begin(), p.end(), l, r); q.itv[k].add(nm + " bwd", iv(s, l, r));
        s = backward_search(c, 0, c.size() - 1, pv.begin(), pv.end(), l, r); q.itv[k].add(nm + " bwd iv", iv(s, l, r));
        s = forward_search(c, 0, c.size() - 1, p.begin(), p.end(), l, r); q.itv[k].add(nm + " fwd", iv(s, l, r));
        s = forward_search(c, 0, c.size() - 1, pv.begin(), pv.end(), l, r); q.itv[k].add(nm + " fwd iv", iv(s, l, r));
        auto a = lex_interval(c, p.begin(), p.end()); q.itv[k].add(nm + " lex", iv(a[1] + 1 - a[0], a[0], a[1]));
        q.loc[k].add(nm, tov(locate(c, p))); q.loc[k].add(nm + " it", tov(locate(c, p.begin(), p.end())));
        auto lv = locate<C, std::vector<u64>>(c, p); q.loc[k].add(nm + " vec", lv);
    }
    for (size_t k = 0; k < q.nq.size(); ++k) {
        auto p = pstr<C>(q.nq[k].q);
        s = forward_search(c, q.nq[k].l, q.nq[k].r, p.begin(), p.end(), l, r); q.ng[k].add(nm, iv(s, l, r));
        if (p.size() == 1) { s = forward_search(c, q.nq[k].l, q.nq[k].r, (ch)q.nq[k].q[0], l, r); q.ng[k].add(nm + " c", iv(s, l, r)); }
        s = backward_search(c, q.bq[k].l, q.bq[k].r, (ch)q.bq[k].c, l, r); q.bg[k].add(nm, iv(s, l, r));
        u64 b = q.eq[k].b, e = q.eq[k].e;
        auto str = extract(c, b, e);
        lvec cs; for (size_t i = 0; i < str.size(); ++i) cs.push_back(x.code((ch)str[i]));
        q.eg[k].add(nm, cs);
        std::vector<ch> buf(e - b + 1, 1);
        u64 cntx = extract(c, b, e, buf.begin());
        lvec c2; for (size_t i = 0; i < buf.size() && i < cntx; ++i) c2.push_back(x.code(buf[i]));
        q.eg[k].add(nm + " it", c2);
    }
}
template<class C> static void build(const Text& x, C& c, bool reverse = false)
{
    const uint8_t W = C::alphabet_category::WIDTH;
    int_vector<W> v = as_iv<W>(x); v.resize(x.n() - 1);
    if (reverse) for (size_t i = 0; i + 1 < v.size() - i; ++i) { u64 a = v[i]; v[i] = (u64)v[v.size() - 1 - i]; v[v.size() - 1 - i] = a; }
    construct_im(c, v, 0);
}
template<class C> static void one(const Text& x, const std::string& nm, Q& q) { C c; build(x, c); ask(x, nm, c, q); }
template<class C> static void cst(const Text& x, const std::string& nm, Q& q)
{
    C c; build(x, c);
    typedef typename C::csa_type A;
    ask(x, nm + ".csa", c.csa, q);
    for (size_t k = 0; k < q.pat.size(); ++k) {
        auto p = pstr<A>(q.pat[k]);
        q.cnt[k].add(nm, count(c, p)); q.cnt[k].add(nm + " it", count(c, p.begin(), p.end()));
        q.loc[k].add(nm, tov(locate(c, p))); q.loc[k].add(nm + " it", tov(locate(c, p.begin(), p.end())));
        q.loc[k].add(nm + " vec", locate<C, std::vector<u64>>(c, p));
        // step by step
        auto v = c.root();
        u64 pos = 0, s = c.size();
        lvec res;
        for (size_t d = 0; d < p.size() && s; ++d) {
            s = forward_search(c, v, d, (typename A::char_type)q.pat[k][d], pos);
            res.push_back(s);
            if (s) { res.push_back(c.lb(v)); res.push_back(c.rb(v)); }
        }
        if (p.size() <= 80) q.cf[k].add(nm, res);
        auto w = c.root(); u64 ps = 0;
        u64 t = forward_search(c, w, 0, p.begin(), p.end(), ps);
        q.cnt[k].add(nm + " fwd", t);
    }
}
// bidirectional search
template<class C> static void bidi(const Text& x, const std::string& nm, tr::Rng& g, bool small, bool bytes, Q& q)
{
    C f, b;
    build(x, f); build(x, b, true);
    size_t n = x.n();
    for (int z = 0; z < (small ? 2 : 6); ++z) {
        vec p = q.pattern(x, g); if (p.size() > 16) p.resize(16);
        size_t m = p.empty() ? 0 : g.below(p.size() + 1), i = m, j = m;
        u64 lf = 0, rf = n - 1, lb = 0, rb = n - 1;
        std::vector<lvec> steps, res;
        u64 s = n;
        if (g.chance(1, 2)) {       // symbol by symbol in random order
            while ((i > 0 || j < p.size()) && s) {
                bool back = i > 0 && (j == p.size() || g.chance(1, 2));
                typename C::char_type c = back ? p[--i] : p[j++];
                if (back) s = bidirectional_search(f, lf, rf, lb, rb, c, lf, rf, lb, rb);
                else s = bidirectional_search(b, lb, rb, lf, rf, c, lb, rb, lf, rf);
                steps.push_back(lvec{back, x.code(c)});
                res.push_back(s ? lvec{(long)s, (long)lf, (long)rf, (long)lb, (long)rb} : lvec{0});
            }
        } else {                    // two pieces
            auto ps = pstr<C>(p);
            s = bidirectional_search_backward(f, b, lf, rf, lb, rb, ps.begin(), ps.begin() + m, lf, rf, lb, rb);
            for (size_t k = m; k > 0; --k) { steps.push_back(lvec{1, x.code(p[k - 1])}); res.push_back(k > 1 ? lvec() : s ? lvec{(long)s, (long)lf, (long)rf, (long)lb, (long)rb} : lvec{0}); }
            if (s) {
                s = bidirectional_search_forward(f, b, lf, rf, lb, rb, ps.begin() + m, ps.end(), lf, rf, lb, rb);
                for (size_t k = m; k < p.size(); ++k) { steps.push_back(lvec{0, x.code(p[k])}); res.push_back(k + 1 < p.size() ? lvec() : s ? lvec{(long)s, (long)lf, (long)rf, (long)lb, (long)rb} : lvec{0}); }
            }
        }
        Group o("bidi"); o.arg("steps", steps); o.add(nm, res); o.done();
    }
}
static void rev(const Text& x)
{
    vec s = x.syms(); s.pop_back(); std::reverse(s.begin(), s.end());
    Text y = make(s, "reverse");
    tr::emit(tr::Ev("reverse").f("t", y.t).f("sa", y.sa).f("inv", y.inv));
}
typedef int_alphabet<> IA;
typedef succinct_byte_alphabet<> SB;
typedef sa_order_sa_sampling<> SO; typedef text_order_sa_sampling<> TO; typedef fuzzy_sa_sampling<> FZ;
typedef isa_sampling<> IS; typedef text_order_isa_sampling_support<> TI; typedef fuzzy_isa_sampling_support<> FI;
#define ONE(...) one<__VA_ARGS__>(x, #__VA_ARGS__, q)
#define CST(...) cst<__VA_ARGS__>(x, #__VA_ARGS__, q)
#define BIDI(...) bidi<__VA_ARGS__>(x, #__VA_ARGS__, g, small, true, q)
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    Q q(x, g, small, true);
#if PART == 0
    ONE(csa_wt<>); ONE(csa_wt<wt_hutu<>, 4, 4, TO, TI, SB>); ONE(csa_sada<>); ONE(csa_sada<enc_vector<coder::fibonacci, 8>, 4, 4, TO, IS, SB>);
    CST(cst_sct3<>);
#elif PART == 1
    ONE(csa_bitcompressed<>); ONE(csa_bitcompressed<SB>); ONE(csa_wt<wt_ap<>, 5, 9, SO, IS, byte_alphabet>); ONE(csa_sada<enc_vector<coder::elias_gamma, 5>, 4, 4, FZ, FI>); ONE(csa_wt<wt_rlmn<>, 4, 4, FZ, FI>);
    CST(cst_sada<>);
#else
    rev(x);
    BIDI(csa_wt<wt_blcd<>>); BIDI(csa_wt<wt_hutu<rrr_vector<31>>>); BIDI(csa_wt<wt_int<>, 8, 8, SO, IS, byte_alphabet>); BIDI(csa_wt<wt_hutu<>, 7, 7, TO, TI, SB>);
    CST(cst_fully<>); CST(cst_sct3<csa_sada<>, lcp_support_tree2<>>);
#endif
    q.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    Q q(x, g, small, false);
#if PART == 0
    ONE(csa_wt<wt_int<>, 32, 32, SO, IS, IA>); ONE(csa_sada<enc_vector<>, 4, 4, TO, TI, IA>);
    CST(cst_sct3<csa_wt<wt_int<>, 8, 8, SO, IS, IA>>);
#elif PART == 1
    ONE(csa_bitcompressed<IA>); ONE(csa_wt<wt_huff_int<>, 4, 4, TO, TI, IA>);
    CST(cst_sada<csa_sada<enc_vector<>, 8, 8, SO, IS, IA>>);
#else
    rev(x);
    BIDI(csa_wt<wt_int<>, 4, 8, SO, IS, IA>); BIDI(csa_wt<wt_hutu_int<>, 4, 8, SO, IS, IA>); BIDI(csa_wt<wt_int<rrr_vector<63>>, 4, 8, SO, IS, IA>);
    CST(cst_sct3<csa_bitcompressed<IA>>);
#endif
    q.done();
}
static void reg()
{
    register_jobs(true, 80 + PART, tr::thorough ? 2 : 1, tr::thorough ? 6 : 5, 5, tr::thorough ? 2 : 4, bytes, 300);
    register_jobs(false, 90 + PART, tr::thorough ? 2 : 1, tr::thorough ? 5 : 4, 5, tr::thorough ? 2 : 4, ints, 300);
}
TR_REGISTER(reg);
