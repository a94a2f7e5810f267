// C13: range queries and node-wise traversal of wavelet trees.
#include "wt_common.hpp"
using namespace wtc;
struct Q { u64 i, j, c, d; };
static void one(const Case& c, tr::Rng& g, bool large)
{
    u64 n = c.codes.size(), K = c.syms.size();
    std::vector<Q> q;      // 0 <= i <= j <= n, codes c <= d mostly
    if (n <= 5) { for (u64 i = 0; i <= n; ++i) for (u64 j = i; j <= n; ++j) { u64 a = g.below(K), b = g.below(K); q.push_back(Q{i, j, a, b}); q.push_back(Q{i, j, g.below(K), K - 1}); } }
    else for (int t = 0; t < (large ? 30 : 24); ++t) {
        u64 i = g.below(n + 1), j = g.below(n + 1), a = g.below(K), b = g.below(K);
        if (t == 0) { i = 0; j = n; a = 0; b = K - 1; }
        if (t == 1) j = i;
        if (t == 2 && n) { i = g.below(n); j = i + 1; }
        if (t == 3 && n > 1) { i = g.below(n - 1); j = i + 2; }
        if (t % 4 == 0) std::swap(a, b);
        if (t % 3 == 1 && j > i + 40) j = i + g.below(40);
        if (i > j) std::swap(i, j);
        q.push_back(Q{i, j, a, b});
    }
    vec qi, qj, qc, qd;
    for (auto& x : q) { qi.push_back(x.i); qj.push_back(x.j); qc.push_back(x.c); qd.push_back(x.d); }
    // queries on non-empty intervals [i..j-1] given inclusively
    std::vector<Q> p;
    for (auto& x : q) if (x.i < x.j) p.push_back(x);
    vec pi_, pj_, pc_, pd_, pq;
    for (auto& x : p) { pi_.push_back(x.i); pj_.push_back(x.j); pc_.push_back(x.c); pd_.push_back(x.d); pq.push_back(g.below(x.j - x.i)); }
    std::vector<std::vector<pr>> ir;
    vec it;
    if (n) for (int t = 0; t < (large ? 10 : 12); ++t) {
            std::vector<pr> rs;
            u64 m = g.below(5);
            for (u64 k = 0; k < m; ++k) { u64 a = g.below(n), b = g.below(n); if (a > b) std::swap(a, b); if (g.chance(1, 3)) b = std::min(n - 1, a + g.below(4)); rs.push_back(pr(a, b)); }
            ir.push_back(rs);
            it.push_back(g.chance(1, 2) ? 0 : g.below(m + 1));
        }
    vec sc;
    for (u64 k = 0; k < K; ++k) if (K <= 40 || g.chance(40, K) || k == 0 || k + 1 == K) sc.push_back(k);
    tr::Group lc("lex_count"), ls("lex_smaller"), isx("interval_symbols_lex"), isa("interval_symbols"), r2("range2d"), r2n("range2d_count"), qu("quantile"),
       inx("intersect_lex"), ina("intersect"), lte("symbol_lte"), gte("symbol_gte"), ruv("unique_range"), nd("nodes"), ndx("nodes_lex");
    lc.arg("i", qi).arg("j", qj).arg("c", qc);
    ls.arg("i", qi).arg("c", qc);
    isx.arg("i", qi).arg("j", qj); isa.arg("i", qi).arg("j", qj);
    r2.arg("i", pi_).arg("j", pj_).arg("c", pc_).arg("d", pd_); r2n.arg("i", pi_).arg("j", pj_).arg("c", pc_).arg("d", pd_);
    qu.arg("i", pi_).arg("j", pj_).arg("q", pq);
    inx.arg("ranges", ir).arg("t", it); ina.arg("ranges", ir).arg("t", it);
    lte.arg("c", sc); gte.arg("c", sc);
    ruv.arg("i", pi_).arg("j", pj_).arg("c", pc_).arg("d", pd_);
    Dec dec(c);
    each(c, g, [&](const Obj& o, const std::string& name) {
        if (o.has_lc()) {
            std::vector<std::vector<u64>> r;
            for (auto& x : q) { auto t = o.lex_count(x.i, x.j, c.syms[x.c]); r.push_back({t[0], t[1], t[2]}); }
            lc.add(name, r);
            r.clear();
            for (auto& x : q) { auto t = o.lex_smaller(x.i, c.syms[x.c]); r.push_back({t[0], t[1]}); }
            ls.add(name, r);
        }
        if (o.has_is()) for (int f = 0; f < 2; ++f) {
                std::string s = "[";
                for (auto& x : q) {
                    IS t = o.isym(x.i, x.j, f);
                    std::vector<std::vector<long>> y;
                    for (size_t k = 0; k < t.cs.size(); ++k) y.push_back({dec(t.cs[k]), (long)t.ri[k], (long)t.rj[k]});
                    if (t.k != t.cs.size()) y.push_back({-2, (long)std::min<u64>(t.k, 99999), 0});
                    if (s.size() > 1) s += ',';
                    s += tr::jv(y);
                }
                (o.lex() ? isx : isa).addj(name + (f ? " (free function)" : ""), s + "]");
            }
        if (o.has_r2d()) {
            std::string s = "[", s2 = "[";
            for (auto& x : p) {
                auto t = o.r2d(x.i, x.j - 1, c.syms[x.c], c.syms[x.d], true);
                auto u = o.r2d(x.i, x.j - 1, c.syms[x.c], c.syms[x.d], false);
                std::vector<std::vector<long>> y;
                for (auto& z : t.second) y.push_back({(long)z.first, dec(z.second)});
                if (s.size() > 1) s += ',';
                s += "[" + tr::jv(t.first) + "," + tr::jv(y) + "]";
                if (s2.size() > 1) s2 += ',';
                s2 += tr::jv(std::vector<u64>{u.first, u.second.size()});
            }
            r2.addj(name, s + "]"); r2n.addj(name, s2 + "]");
        }
        if (o.has_nodes() && n) {
            std::string s = "[";
            for (size_t k = 0; k < ir.size(); ++k) {
                auto t = o.intersect(ir[k], it[k]);
                std::vector<std::vector<long>> y;
                for (auto& z : t) y.push_back({dec(z.first), (long)z.second});
                if (k) s += ',';
                s += tr::jv(y);
            }
            (o.lex() ? inx : ina).addj(name, s + "]");
        }
        if (o.has_nodes() && o.lex() && n) {
            std::vector<std::vector<long>> r;
            for (size_t k = 0; k < p.size(); ++k) { auto t = o.quantile(p[k].i, p[k].j - 1, pq[k]); r.push_back({dec(t.first), (long)t.second}); }
            qu.add(name, r);
            r.clear();
            for (u64 k : sc) { auto t = o.lte(c.syms[k]); r.push_back({(long)t.first, t.first ? dec(t.second) : 0}); }
            lte.add(name, r);
            r.clear();
            for (u64 k : sc) { auto t = o.gte(c.syms[k]); r.push_back({(long)t.first, t.first ? dec(t.second) : 0}); }
            gte.add(name, r);
            std::vector<std::vector<long>> ur;
            for (auto& x : p) { std::vector<long> y; for (u64 z : o.ruv(x.i, x.j - 1, c.syms[x.c], c.syms[x.d])) y.push_back(dec(z)); ur.push_back(y); }
            ruv.add(name, ur);
        }
        if (o.has_nodes() && n && n <= 130 && K <= 40) {
            tr::Rng g2(n * 77 + K);
            auto ns = o.nodes(g2);
            std::string s = "[";
            for (auto& d : ns) {
                if (s.size() > 1) s += ',';
                std::vector<long> sq;
                for (u64 x : d.seq) sq.push_back(dec(x));
                auto mp = [](const std::vector<std::pair<pr, pr>>& a) { std::vector<std::vector<u64>> y; for (auto& z : a) y.push_back({z.first.first, z.first.second, z.second.first, z.second.second}); return y; };
                s += "{\"leaf\":" + tr::jv(d.leaf) + ",\"size\":" + tr::jv(d.size) + ",\"empty\":" + tr::jv(d.empty) + ",\"sym\":" + tr::jv(d.leaf ? dec(d.sym) : -1L) + ",\"seq\":" + tr::jv(sq) + ",\"bits\":" + tr::jv(d.bits)
                     + ",\"l\":" + tr::jv(d.left) + ",\"r\":" + tr::jv(d.right) + ",\"rq\":" + tr::jv(d.rq) + ",\"rl\":" + tr::jv(mp(d.rl)) + ",\"rv\":" + tr::jv(mp(d.rv)) + ",\"rm\":" + tr::jv(mp(d.rm)) + "}";
            }
            s += "]";
            // paths of the symbols that occur: length and bits, most significant bit first
            std::string ps = "[";
            std::vector<bool> seen(K, false);
            for (u64 x : c.codes) if (!seen[x]) {
                    seen[x] = true;
                    auto t = o.path(c.syms[x]);
                    std::vector<int> b;
                    for (u64 k = 0; k < t.first && k < 64; ++k) b.push_back((t.second >> (t.first - 1 - k)) & 1);
                    if (ps.size() > 1) ps += ',';
                    ps += "[" + tr::jv(x) + "," + tr::jv(b) + "]";
                }
            (o.lex() ? ndx : nd).addj(name, "{\"nodes\":" + s + ",\"paths\":" + ps + "]}");
        }
    }, c.what != "exh");
    for (tr::Group* x : {&lc, &ls, &isx, &isa, &r2, &r2n, &qu, &inx, &ina, &lte, &gte, &ruv, &nd, &ndx}) x->done();
}
static void reg() { register_jobs(13, one, false); }
TR_REGISTER(reg);
