// C12: point queries of wavelet trees.
#include "wt_common.hpp"
using namespace wtc;
static void one(const Case& c, tr::Rng& g, bool large)
{
    u64 n = c.codes.size(), K = c.syms.size();
    vec cnt(K, 0);
    for (u64 x : c.codes) ++cnt[x];
    std::vector<pr> rq, sq;   // (code, argument)
    vec pq;
    if (!large && n * K <= 700) { for (u64 k = 0; k < K; ++k) for (u64 i = 0; i <= n; ++i) rq.push_back(pr(k, i)); }
    else for (int t = 0; t < 700; ++t) { u64 k = g.chance(1, 2) && n ? c.codes[g.below(n)] : g.below(K); rq.push_back(pr(k, t < 20 ? n : g.below(n + 1))); }
    if (n <= 700) { for (u64 k = 0; k < K; ++k) for (u64 i = 1; i <= cnt[k]; ++i) sq.push_back(pr(k, i)); }
    else for (int t = 0; t < 700; ++t) { u64 k = c.codes[g.below(n)]; sq.push_back(pr(k, t % 5 == 0 ? cnt[k] : t % 5 == 1 ? 1 : 1 + g.below(cnt[k]))); }
    if (n <= 700) { for (u64 i = 0; i < n; ++i) pq.push_back(i); }
    else for (int t = 0; t < 700; ++t) pq.push_back(t == 0 ? 0 : t == 1 ? n - 1 : g.below(n));
    vec rc, ri, sc, si;
    for (auto& x : rq) { rc.push_back(x.first); ri.push_back(x.second); }
    for (auto& x : sq) { sc.push_back(x.first); si.push_back(x.second); }
    tr::Group gm("meta"), ga("access"), gi("iter"), gr("rank_at"), gs("select_at"), gv("invsel");
    gr.arg("c", rc).arg("i", ri); gs.arg("c", sc).arg("k", si); gv.arg("pos", pq); ga.arg("pos", pq);
    Dec dec(c);
    each(c, g, [&](const Obj& o, const std::string& name) {
        gm.add(name, std::vector<long>{(long)o.size(), o.has_sigma() ? (long)o.sigma() : -1, (long)o.empty()});
        std::vector<long> v;
        for (u64 i : pq) v.push_back(dec(o.at(i)));
        ga.add(name, v);
        if (o.has_iter() && n <= 5000) { v.clear(); for (u64 x : o.iter()) v.push_back(dec(x)); gi.add(name, v); }
        vec r;
        for (auto& x : rq) r.push_back(o.rank(x.second, c.syms[x.first]));
        gr.add(name, r);
        r.clear();
        for (auto& x : sq) r.push_back(o.select(x.second, c.syms[x.first]));
        gs.add(name, r);
        std::vector<std::pair<long, long>> w;
        for (u64 i : pq) { pr p = o.invsel(i); w.push_back({(long)p.first, dec(p.second)}); }
        gv.add(name, w);
    }, c.what != "exh");
    gm.done(); ga.done(); gi.done(); gr.done(); gs.done(); gv.done();
}
static void reg() { register_jobs(12, one, true); }
TR_REGISTER(reg);
