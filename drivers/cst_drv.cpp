// C18: compressed suffix trees
#include "text_inputs.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
using namespace sdsl;
using namespace txt;
using tr::Group;
using tr::J;
typedef std::vector<long> lvec;
struct Node { u64 l, r, d; long p; lvec k; };
struct Tree {
    std::vector<Node> nd;              // preorder, numbered from 1
    std::vector<u64> leaf;             // row -> number
    std::map<std::pair<u64, u64>, u64> no;
    explicit Tree(const Text& x) { build(x, 0, x.n() - 1, 0); }
    void build(const Text& x, u64 l, u64 r, long p) {
        u64 me = nd.size() + 1;
        nd.push_back(Node{l, r, 0, p, {}});
        no[{l, r}] = me;
        if (p) nd[p - 1].k.push_back(me);
        if (l == r) { nd[me - 1].d = x.n() - x.sa[l]; if (leaf.size() <= l) leaf.resize(l + 1); leaf[l] = me; return; }
        u64 m = *std::min_element(x.lcp.begin() + l + 1, x.lcp.begin() + r + 1), a = l;
        nd[me - 1].d = m;
        for (u64 i = l + 1; i <= r; ++i) if (x.lcp[i] == m) { build(x, a, i - 1, me); a = i; }
        build(x, a, r, me);
    }
    void emit() const {
        std::string s = "[";
        for (auto& n : nd) { if (s.size() > 1) s += ","; s += "[" + tr::jv(n.l) + "," + tr::jv(n.r) + "," + tr::jv(n.d) + "," + tr::jv(n.p) + "," + tr::jv(n.k) + "]"; }
        tr::emit(tr::Ev("tree").f("nodes", J{s + "]"}).f("leaves", leaf));
    }
    long num(u64 l, u64 r) const { auto it = no.find({l, r}); return it == no.end() ? 0 : it->second; }
};
struct Q {
    Tree T;
    struct NQ { u64 v; lvec ds; bool full; Group shape, label; }; std::vector<NQ> nq;
    struct CQ { u64 v, c; Group child, wl; }; std::vector<CQ> cq;
    struct PQ { u64 v, w; Group lca, anc; }; std::vector<PQ> pq;
    struct KQ { u64 v, i; Group g; }; std::vector<KQ> kq;
    struct LQ { u64 i; Group g; }; std::vector<LQ> lq;
    struct DQ { u64 v; std::vector<u64> skip; u64 copy; Group g; }; std::vector<DQ> dq;
    Group nodes, lcp, ids, bu, bfs;
    std::vector<u64> top;              // nodes with many children
    u64 pick(const Text& x, tr::Rng& g, bool inner) const {
        if (!top.empty() && g.chance(1, 5)) return top[g.below(top.size())];
        if (!inner) return g.chance(1, 2) ? T.leaf[g.below(x.n())] : 1 + g.below(T.nd.size());
        for (int z = 0; z < 40; ++z) { u64 v = 1 + g.below(T.nd.size()); if (!T.nd[v - 1].k.empty()) return v; }
        return 1;
    }
    Q(const Text& x, tr::Rng& g, bool small, bool bytes) : T(x), nodes("nodes"), lcp("lcp"), ids("ids"), bu("bottomup"), bfs("bfs") {
        T.emit();
        size_t M = T.nd.size();
        for (u64 v = 1; v <= M; ++v) if (T.nd[v - 1].k.size() > 8) top.push_back(v);
        std::stable_sort(top.begin(), top.end(), [&](u64 a, u64 b) { return T.nd[a - 1].k.size() > T.nd[b - 1].k.size(); });
        if (top.size() > 5) top.resize(5);
        std::set<u64> sel;
        size_t want = small ? 12 : tr::thorough ? 150 : 45;
        if (M <= want) for (u64 v = 1; v <= M; ++v) sel.insert(v);
        else {
            for (u64 v : {(u64)1, T.leaf[0], T.leaf[x.n() - 1], (u64)T.nd[0].k[0], (u64)T.nd[0].k.back()}) sel.insert(v);
            u64 w = 0, big = 0;
            for (u64 v = 2; v <= M; ++v) { if (T.nd[v - 1].k.size() > T.nd[w ? w - 1 : v - 1].k.size()) w = v; if (T.nd[v - 1].d > (big ? T.nd[big - 1].d : 0) && !T.nd[v - 1].k.empty()) big = v; }
            if (w) sel.insert(w);
            for (u64 v : top) sel.insert(v);
            if (big) sel.insert(big);
            for (int z = 0; sel.size() < want && z < 1000; ++z) { u64 v = pick(x, g, g.chance(3, 4)); sel.insert(v); if (g.chance(1, 3)) for (long c : T.nd[v - 1].k) if (sel.size() < want) sel.insert(c); }
        }
        for (u64 v : sel) {
            NQ q{v, {}, T.nd[v - 1].d <= 80, Group("shape"), Group("label")};
            u64 d = T.nd[v - 1].d;
            if (v != 1) { for (u64 i = 1; i <= d && i <= (small ? 6u : 12u); ++i) q.ds.push_back(i); if (d > 12) { q.ds.push_back(d); q.ds.push_back(1 + g.below(d)); } }
            q.shape.arg("v", v); q.label.arg("v", v).arg("ds", q.ds).arg("full", q.full);
            nq.push_back(q);
        }
        auto symbol = [&](u64 v) {
            if (g.chance(1, 6)) { u64 c = x.tab[g.below(x.tab.size())] + 1; if (g.chance(1, 3)) c = bytes ? 1 + g.below(255) : 1 + g.below(100000); if (c < (bytes ? 256u : 1u << 30) && x.code(c) < 0) return c; }
            if (!T.nd[v - 1].k.empty() && g.chance(2, 3)) { long c = T.nd[v - 1].k[g.below(T.nd[v - 1].k.size())]; return (u64)x.tab[x.t[x.sa[T.nd[c - 1].l] + T.nd[v - 1].d]]; }
            return (u64)x.tab[g.below(x.tab.size())];
        };
        size_t k = small ? 5 : 24;
        for (size_t i = 0; i < k; ++i) {
            u64 v = pick(x, g, g.chance(7, 8)); if (i < 2) v = 1;
            CQ q{v, symbol(v), Group("child"), Group("wl")};
            q.child.arg("v", v).arg("c", x.code(q.c)); q.wl.arg("v", v).arg("c", x.code(q.c));
            cq.push_back(q);
            PQ p{pick(x, g, g.chance(1, 2)), pick(x, g, g.chance(1, 2)), Group("lca"), Group("anc")};
            if (g.chance(1, 4)) { p.w = p.v; for (int z = g.below(4); z > 0 && T.nd[p.v - 1].p; --z) p.v = T.nd[p.v - 1].p; if (g.chance(1, 2)) std::swap(p.v, p.w); }
            for (Group* h : {&p.lca, &p.anc}) h->arg("v", p.v).arg("w", p.w);
            pq.push_back(p);
            if (i % 3 == 0) { u64 v2 = pick(x, g, g.chance(1, 2)), d = T.nd[v2 - 1].d; KQ z{v2, g.below(d + 1), Group("slk")}; z.g.arg("v", v2).arg("i", z.i); kq.push_back(z); }
            if (i % 3 == 0) { LQ z{g.below(x.n()), Group("leaf")}; z.g.arg("i", z.i); lq.push_back(z); }
        }
        for (int i = 0; i < 4; ++i) {
            u64 v = i < 2 ? 1 : pick(x, g, true);
            DQ d{v, {}, i % 2 ? g.below(2 * M) : (u64)-1, Group("dfs")};
            if (i == 1 || i == 3) for (u64 w = 1; w <= M; ++w) if (!T.nd[w - 1].k.empty() && w != v && g.chance(1, 4)) d.skip.push_back(w);
            d.g.arg("v", v).arg("skip", d.skip);
            dq.push_back(d);
        }
    }
    void done() {
        nodes.done(); lcp.done();
        for (auto& q : nq) { q.shape.done(); q.label.done(); }
        for (auto& q : cq) { q.child.done(); q.wl.done(); }
        for (auto& q : pq) { q.lca.done(); q.anc.done(); }
        for (auto& q : kq) q.g.done();
        for (auto& q : lq) q.g.done();
        for (auto& q : dq) q.g.done();
        ids.done(); bu.done(); bfs.done();
    }
};
template<class C> struct isfully : std::false_type {};
template<class A, uint32_t D, class S, class B, class E, bool L> struct isfully<cst_fully<A, D, S, B, E, L>> : std::true_type {};
template<class C> struct issada : std::false_type {};
template<class A, class L, class B, class R, class S> struct issada<cst_sada<A, L, B, R, S>> : std::true_type {};
template<class C> static std::string pr(const C& c, const typename C::node_type& v) { return "[" + tr::jv((u64)c.lb(v)) + "," + tr::jv((u64)c.rb(v)) + "]"; }
template<class C> static long no(const C& c, const Tree& T, const typename C::node_type& v) { return T.num(c.lb(v), c.rb(v)); }
// the parts that cst_fully does not have
template<class C> static typename std::enable_if<isfully<C>::value>::type extra(const Text&, const std::string& nm, C& c, Q& q, std::vector<typename C::node_type>& nd)
{
    for (auto& p : q.pq) p.anc.add(nm, c.ancestor(nd[p.v], nd[p.w]));
}
template<class C> static typename std::enable_if<issada<C>::value>::type slk(const std::string& nm, C& c, Q& q, std::vector<typename C::node_type>& nd)
{
    for (auto& k : q.kq) k.g.addj(nm, pr(c, c.sl(nd[k.v], k.i)));
}
template<class C> static typename std::enable_if<!issada<C>::value>::type slk(const std::string&, C&, Q&, std::vector<typename C::node_type>&) {}
template<class C> static typename std::enable_if<!isfully<C>::value>::type extra(const Text& x, const std::string& nm, C& c, Q& q, std::vector<typename C::node_type>& nd)
{
    slk(nm, c, q, nd);
    std::string s = "[";
    for (size_t v = 1; v < nd.size(); ++v) { u64 id = c.id(nd[v]); if (v > 1) s += ","; s += "[" + tr::jv(id) + "," + (id < 2 * x.n() ? pr(c, (typename C::node_type)c.inv_id(id)) : "[]") + "]"; }
    q.ids.addj(nm, s + "]");
    lvec b;
    for (auto it = c.begin_bottom_up(); it != c.end_bottom_up() && b.size() < 3 * nd.size(); ++it) b.push_back(no(c, q.T, *it));
    q.bu.add(nm, b);
    b.clear();
    { auto it = c.begin_bottom_up(); while (it != c.end_bottom_up() && b.size() < 3 * nd.size()) { auto o = it++; b.push_back(no(c, q.T, *o)); } }
    q.bu.add(nm + " it++", b);
}
template<class C> static typename std::enable_if<!isfully<C>::value, std::pair<typename C::const_iterator, typename C::const_iterator>>::type range(const C& c, const typename C::node_type& v) { return {c.begin(v), c.end(v)}; }
template<class C> static void dfs(const std::string& nm, C& c, Q::DQ& d, Q& q, std::vector<typename C::node_type>& nd)
{
    std::string s = "[";
    size_t cnt = 0;
    auto put = [&](typename C::const_iterator& it) {
        if (cnt++) s += ",";
        auto v = *it;
        long k = no(c, q.T, v);
        s += "[" + tr::jv(k) + "," + tr::jv((int)it.visit()) + "]";
        if (it.visit() == 1 && k > 0 && std::binary_search(d.skip.begin(), d.skip.end(), (u64)k)) it.skip_subtree();
    };
    auto run = [&](typename C::const_iterator it, const typename C::const_iterator& end) {
        for (; it != end && cnt < 3 * nd.size(); ++it) put(it);
    };
    auto go = [&](typename C::const_iterator& it, const typename C::const_iterator& end) {
        for (; it != end && cnt < 3 * nd.size(); ++it) {
            if (cnt == d.copy) { run(it, end); return; }      // a copy carries on
            put(it);
        }
    };
    walk(c, d, nd, go);
    d.g.addj(nm, s + "]");
}
template<class C, class F> static typename std::enable_if<isfully<C>::value>::type walk(const C& c, const Q::DQ&, std::vector<typename C::node_type>&, F& go) { auto it = c.begin(); go(it, c.end()); }
template<class C, class F> static typename std::enable_if<!isfully<C>::value>::type walk(const C& c, const Q::DQ& d, std::vector<typename C::node_type>& nd, F& go)
{
    if (d.v == 1) { auto it = c.begin(); go(it, c.end()); }
    else { auto it = c.begin(nd[d.v]); go(it, c.end(nd[d.v])); }
}
template<class C> static void ask(const Text& x, const std::string& nm, C& c, Q& q)
{
    typedef typename C::char_type ch;
    typedef typename C::node_type node;
    Tree& T = q.T;
    std::vector<node> nd(T.nd.size() + 1);
    for (size_t v = 1; v < nd.size(); ++v) nd[v] = c.node(T.nd[v - 1].l, T.nd[v - 1].r);
    q.nodes.addj(nm, "[" + tr::jv(c.nodes()) + "," + tr::jv(c.size()) + "," + pr(c, c.root()) + "," + tr::jv(c.empty()) + "]");
    { lvec l; for (size_t i = 0; i < x.n(); ++i) l.push_back(c.lcp[i]); q.lcp.add(nm, l); }
    for (auto& z : q.nq) {
        const node& v = nd[z.v];
        std::string s = "[" + tr::jv((u64)c.lb(v)) + "," + tr::jv((u64)c.rb(v)) + "," + tr::jv((bool)c.is_leaf(v)) + "," + tr::jv((u64)c.size(v)) + "," + tr::jv((u64)c.degree(v)) + ",";
        s += (c.is_leaf(v) ? tr::jv((u64)c.sn(v)) : std::string("-1")) + "," + pr(c, c.parent(v)) + ",[";
        size_t k = 0;
        auto kids = c.children(v);
        for (auto w : kids) { if (k) s += ","; s += pr(c, w); if (++k > x.n()) break; }
        s += "],[";
        for (size_t i = 1; i <= k + 1; ++i) { if (i > 1) s += ","; s += pr(c, i % 2 ? c.select_child(v, i) : kids[i - 1]); }
        s += "]," + pr(c, c.sibling(v)) + "," + pr(c, c.leftmost_leaf(v)) + "," + pr(c, c.rightmost_leaf(v)) + "," + pr(c, v) + "," + tr::jv((u64)c.node_depth(v)) + "]";
        z.shape.addj(nm, s);
        lvec e;
        for (long d : z.ds) e.push_back(x.code((ch)c.edge(v, d)));
        s = "[" + tr::jv((u64)c.depth(v)) + "," + tr::jv(e) + ",";
        lvec lab;
        if (z.full) { auto str = extract(c, v); for (size_t i = 0; i < str.size(); ++i) lab.push_back(x.code((ch)str[i])); }
        s += tr::jv(lab) + "," + pr(c, c.sl(v)) + "]";
        z.label.addj(nm, s);
        if (z.full) {
            std::vector<ch> buf(x.n() + 2, 1);
            u64 len = extract(c, v, buf.begin());
            lvec l2; for (u64 i = 0; i < len && i < buf.size(); ++i) l2.push_back(x.code(buf[i]));
            z.label.addj(nm + " it", "[" + tr::jv((u64)c.depth(v)) + "," + tr::jv(e) + "," + tr::jv(l2) + "," + pr(c, c.sl(v)) + "]");
        }
    }
    for (auto& z : q.cq) {
        node w = c.child(nd[z.v], (ch)z.c);
        z.child.addj(nm, pr(c, w));
        u64 pos = 0;
        node w2 = c.child(nd[z.v], (ch)z.c, pos);
        std::string s = pr(c, w2);
        s.back() = ',';
        z.child.addj(nm + " pos", s + tr::jv(w2 == c.root() ? 0 : pos) + "]");
        if (z.c) z.wl.addj(nm, pr(c, c.wl(nd[z.v], (ch)z.c)));
    }
    for (auto& p : q.pq) p.lca.addj(nm, pr(c, c.lca(nd[p.v], nd[p.w])));
    for (auto& p : q.lq) p.g.addj(nm, pr(c, c.select_leaf(p.i + 1)));
    for (auto& d : q.dq) if (d.v == 1 || !isfully<C>::value) dfs(nm, c, d, q, nd);
    { lvec b; cst_bfs_iterator<C> it(&c, c.root()), end(&c, c.root(), true, true); for (; it != end && b.size() < 3 * nd.size(); ++it) b.push_back(no(c, T, *it)); q.bfs.add(nm, b); }
    extra(x, nm, c, q, nd);
}
template<class C> static void one(const Text& x, const std::string& nm, Q& q)
{
    const uint8_t W = C::csa_type::alphabet_category::WIDTH;
    int_vector<W> v = as_iv<W>(x); v.resize(x.n() - 1);
    C c;
    construct_im(c, v, 0);
    ask(x, nm, c, q);
}
typedef int_alphabet<> IA;
typedef succinct_byte_alphabet<> SB;
typedef sa_order_sa_sampling<> SO; typedef isa_sampling<> IS;
typedef csa_wt<wt_int<>, 8, 8, SO, IS, IA> CI;
typedef csa_sada<enc_vector<>, 8, 8, SO, IS, IA> SI;
typedef csa_bitcompressed<IA> BI;
typedef csa_wt<wt_huff<>, 4, 4> CW; typedef csa_sada<enc_vector<>, 8, 8> CS; typedef csa_bitcompressed<> CB;
#define ONE(...) one<__VA_ARGS__>(x, #__VA_ARGS__, q)
static void bytes(const Text& x, tr::Rng& g, bool small)
{
    if (x.n() < 2) return;
    Q q(x, g, small, true);
#if PART == 0
    ONE(cst_sct3<>); ONE(cst_sct3<CB, lcp_bitcompressed<>, bp_support_g<>, bit_vector, rank_support_v<>, select_support_mcl<>>);
    ONE(cst_sct3<CW, lcp_support_sada<>, bp_support_sada<64, 4>>);
#elif PART == 1
    ONE(cst_sada<>); ONE(cst_sada<CW, lcp_support_tree2<>, bp_support_gg<>>); ONE(cst_sada<CB, lcp_support_tree<>, bp_support_sada<32, 4>>);
#elif PART == 2
    ONE(cst_fully<>); ONE(cst_fully<CW, 3, bp_support_sada<>, sd_vector<>, dac_vector<>, true>); ONE(cst_fully<CS, 4, bp_support_gg<>, rrr_vector<63>, vlc_vector<>>);
#else
    ONE(cst_sct3<CS, lcp_support_tree2<3>, bp_support_gg<>>); ONE(cst_sct3<CW, lcp_wt<>, bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v<>, select_support_mcl<>, 64>>);
    ONE(cst_sada<CS, lcp_support_sada<>, bp_support_g<>>); ONE(cst_fully<CB, 2, bp_support_sada<>, bit_vector, int_vector<64>, true>);
#endif
    q.done();
}
static void ints(const Text& x, tr::Rng& g, bool small)
{
    if (x.n() < 2) return;
    Q q(x, g, small, false);
#if PART == 0
    ONE(cst_sct3<CI>); ONE(cst_sct3<BI, lcp_bitcompressed<>, bp_support_gg<>>);
#elif PART == 1
    ONE(cst_sada<SI>); ONE(cst_sada<CI, lcp_byte<>, bp_support_gg<>>);
#elif PART == 2
    ONE(cst_fully<CI>); ONE(cst_fully<SI, 5, bp_support_sada<>, sd_vector<>, dac_vector<>, true>);
#else
    ONE(cst_sct3<SI, lcp_support_sada<>>); ONE(cst_sada<BI, lcp_support_tree<>, bp_support_g<>>); ONE(cst_fully<BI, 4>);
#endif
    q.done();
}
static void reg()
{
    register_jobs(true, 180 + PART, tr::thorough ? 2 : 1, tr::thorough ? 6 : 5, tr::thorough ? 2 : 4, tr::thorough ? 2 : 4, bytes, 300);
    register_jobs(false, 190 + PART, tr::thorough ? 2 : 1, tr::thorough ? 5 : 4, tr::thorough ? 2 : 4, tr::thorough ? 2 : 4, ints, 300);
}
TR_REGISTER(reg);
