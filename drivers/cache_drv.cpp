// C23: constructing indexes through caches: determinism, independence of what is cached, stray files,
// contents of the registered intermediate arrays.
#include "text_inputs.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/construct.hpp>
#include <sdsl/construct_config.hpp>
#if PART == 0
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/k2_tree.hpp>
#endif
#include <fstream>
#include <sstream>
#include <thread>
#include <memory>
#include <typeinfo>
#include <dirent.h>
#include <sys/stat.h>
#include <malloc.h>
using namespace sdsl;
using namespace txt;
// ---------------------------------------------------------------- what lies in the directories
typedef std::set<std::string> names;
extern std::set<std::string>& ram_names();       // every name the in-RAM file system was asked to hold
static u64 fnv(const std::string& s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
static std::string slurp(const std::string& f) { isfstream in(f, std::ios::in | std::ios::binary); if (!in) return "?"; std::ostringstream o; std::string b(1 << 14, 0); while (in.read(&b[0], b.size()), in.gcount() > 0) o.write(b.data(), in.gcount()); return o.str(); }
static void scan(const std::string& d, names& r)
{
    DIR* p = opendir(d.c_str());
    if (!p) return;
    while (dirent* e = readdir(p)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string f = d + "/" + n;
        struct stat s;
        if (lstat(f.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) scan(f, r); else r.insert(f);
    }
    closedir(p);
}
static std::string canon(std::string f)
{
    if (is_ram_file(f)) return f;
    std::string r;
    if (f[0] != '/') f = "./" + f;
    for (size_t i = 0; i < f.size(); ++i) { if (f[i] == '/' && i + 1 < f.size() && f[i + 1] == '/') continue; if (f.compare(i, 3, "/./") == 0) { ++i; continue; } r += f[i]; }
    return r;
}
static names listing()
{
    names r, q;
    scan(".", q);
    for (auto& x : q) r.insert(canon(x));
    for (auto& x : ram_names()) if (ram_fs::exists(x)) r.insert(x);
    return r;
}
static std::vector<std::string> V(const names& n) { return std::vector<std::string>(n.begin(), n.end()); }
template<class T> static std::string fp(const T& t) { std::ostringstream o; t.serialize(o); std::string s = o.str(); char b[64]; snprintf(b, sizeof b, "%zu/%llx", s.size(), (unsigned long long)fnv(s)); return b; }
// ---------------------------------------------------------------- index types
struct Type {
    int kind; bool bytes; std::string id, name;
    std::function<std::string(const std::string&, cache_config*, int)> file;
    std::function<std::string(const vec&, int)> im;
    std::function<std::string(const std::string&)> cached;     // fingerprint of the stored csa of a tree
    std::string csa, ckey;
    bool wide;      // integer alphabet
};
template<class T> struct csa_of { static std::string id() { return ""; } static std::string key() { return ""; } static std::string cached(const std::string&) { return ""; } };
template<class T> struct tree_csa { typedef typename T::csa_type C; static std::string id() { return typeid(C).name(); } static std::string key() { C c; return std::string(conf::KEY_CSA) + "_" + util::class_to_hash(c); } static std::string cached(const std::string& f) { C c; load_from_file(c, f); return fp(c); } };
template<class T> static bool is_wide(typename T::alphabet_category*) { return T::alphabet_category::WIDTH != 8; }
template<class T> static bool is_wide(...) { return false; }
template<class T, class H> static Type type(int kind, bool bytes, const char* name)
{
    Type t;
    t.kind = kind; t.bytes = bytes; t.id = std::string(typeid(T).name()) + (bytes ? "" : " i"); t.name = name;
    t.file = [](const std::string& f, cache_config* c, int nb) { T x; if (c) construct(x, f, *c, nb); else construct(x, f, nb); return fp(x); };
    t.im = [bytes](const vec& s, int how) {
        T x;
        if (bytes && (how == 0 || is_wide<T>(nullptr))) { std::string d; for (u64 c : s) d += (char)c; construct_im(x, d, 1); }
        else if (bytes) { int_vector<8> d(s.size()); for (size_t i = 0; i < s.size(); ++i) d[i] = s[i]; construct_im(x, d, 0); }
        else { int_vector<> d(s.size(), 0, 64); for (size_t i = 0; i < s.size(); ++i) d[i] = s[i]; if (how) util::bit_compress(d); construct_im(x, d, 0); }
        return fp(x);
    };
    t.wide = is_wide<T>(nullptr);
    t.csa = H::id(); if (!t.csa.empty() && !bytes) t.csa += " i";
    t.ckey = H::key();
    t.cached = [](const std::string& f) { return H::cached(f); };
    return t;
}
typedef int_alphabet<> IA;
typedef succinct_byte_alphabet<> SA_;
typedef sa_order_sa_sampling<> SO; typedef text_order_sa_sampling<> TO; typedef text_order_sa_sampling<bit_vector> TOB; typedef fuzzy_sa_sampling<> FZ; typedef sa_bwt_sampling<> BW;
typedef isa_sampling<> IS; typedef text_order_isa_sampling_support<> TI; typedef fuzzy_isa_sampling_support<> FI;
#define X(kind, by, ...) r.push_back(type<__VA_ARGS__, csa_of<int>>(kind, by, #__VA_ARGS__))
#define XT(kind, by, ...) r.push_back(type<__VA_ARGS__, tree_csa<__VA_ARGS__>>(kind, by, #__VA_ARGS__))
// kinds as in CacheMC.tla: 1 csa_wt 2 csa_sada 3 csa_bitcompressed/with isa 4 lcp 5 tree 6 tree with isa 7 tree with bwt 8 wavelet tree
static std::vector<Type> all_types()
{
    std::vector<Type> r;
#if PART == 0
    X(1, true, csa_wt<>); X(1, true, csa_wt<wt_huff<rrr_vector<63>>, 8, 8, TO, TI>); X(2, true, csa_sada<>); X(2, true, csa_sada<enc_vector<coder::fibonacci, 16>, 4, 4, FZ, FI, SA_>);
    X(3, true, csa_bitcompressed<>); X(4, true, lcp_wt<>); X(4, true, lcp_dac<>); X(8, true, wt_huff<>); X(8, true, wt_gmr<>); X(8, true, wt_int<>);
    XT(5, true, cst_sct3<>); XT(6, true, cst_sada<>); XT(7, true, cst_sct3<csa_wt<>, lcp_support_tree2<8>>);
    X(1, false, csa_wt<wt_int<>, 8, 8, SO, IS, IA>); XT(5, false, cst_sct3<csa_wt<wt_int<>, 8, 8, SO, IS, IA>, lcp_bitcompressed<>>);
#elif PART == 1
    X(1, false, csa_wt<wt_int<rrr_vector<63>>, 4, 4, TO, TI, IA>); X(2, false, csa_sada<enc_vector<>, 8, 8, SO, IS, IA>); X(3, false, csa_bitcompressed<IA>); X(3, false, csa_wt<wt_gmr<>, 4, 4, FZ, FI, IA>);
    X(4, false, lcp_bitcompressed<>); X(4, false, lcp_vlc<>); X(8, false, wt_int<>); X(8, false, wm_int<>); X(8, false, wt_gmr<>); X(8, false, wt_ap<>);
    XT(5, false, cst_sct3<csa_wt<wt_int<>, 8, 8, SO, IS, IA>, lcp_dac<>>); XT(6, false, cst_sada<csa_sada<enc_vector<>, 8, 8, SO, IS, IA>, lcp_support_sada<>>);
    XT(7, false, cst_sct3<csa_sada<enc_vector<>, 8, 8, SO, IS, IA>, lcp_support_tree2<4>>); X(1, true, csa_wt<wt_blcd<>, 4, 4, BW>);
#else
    X(1, true, csa_wt<wt_hutu<>, 5, 3, TOB, IS>); X(1, true, csa_wt<wt_rlmn<>, 8, 8>); X(1, true, csa_wt<wt_ap<>, 8, 8, SO, IS, byte_alphabet>); X(2, true, csa_sada<enc_vector<coder::elias_gamma, 4>, 6, 6, TO, TI>);
    X(3, true, csa_bitcompressed<SA_>); X(4, true, lcp_byte<>); X(4, true, lcp_bitcompressed<>); X(8, true, wt_rlmn<>); X(8, true, wt_gmr_rs<>); X(8, true, wt_ap<>); X(8, true, wm_int<>);
    XT(5, true, cst_sct3<csa_wt<>, lcp_wt<>>); XT(5, true, cst_sct3<csa_bitcompressed<>, lcp_support_tree<>>); XT(6, true, cst_sct3<csa_wt<>, lcp_support_sada<>>); XT(7, true, cst_sada<csa_sada<>, lcp_support_tree2<>>); XT(5, true, cst_fully<>);
    X(8, false, wt_rlmn<bit_vector, bit_vector::rank_1_type, bit_vector::select_1_type, wt_int<>>); XT(5, false, cst_fully<csa_wt<wt_int<>, 8, 8, SO, IS, IA>>);
#endif
    return r;
}
static const std::vector<Type>& types() { static std::vector<Type> t = all_types(); return t; }
// ---------------------------------------------------------------- a session over one text
struct Session {
    Text x; bool bytes; tr::Rng r;
    std::string in[8]; int forms = 0; int nb[8];
    std::map<std::string, u64> guard;      // contents which nobody may change
    names seen;                            // arrays already shown
    Session(const Text& t, bool b, u64 s) : x(t), bytes(b), r(s) {
        txt::emit(x);
        mkdir("in", 0755); mkdir("c", 0755); mkdir("other", 0755);
        vec s2 = x.syms(); s2.pop_back();
        u64 mx = *std::max_element(s2.begin(), s2.end());
        int q = 0;
        auto raw = [&](const std::string& f, int w) { osfstream o(f, std::ios::out | std::ios::binary | std::ios::trunc); for (u64 c : s2) { char z[8]; for (int i = 0; i < w; ++i) z[i] = c >> (8 * i); o.write(z, w); } o.close(); };
        auto vecf = [&](const std::string& f, int w) { if (bytes) { int_vector<8> v(s2.size()); for (size_t i = 0; i < s2.size(); ++i) v[i] = s2[i]; store_to_file(v, f); } else { int_vector<> v(s2.size(), 0, w); for (size_t i = 0; i < s2.size(); ++i) v[i] = s2[i]; store_to_file(v, f); } };
        auto form = [&](const std::string& f, int n) { in[q] = f; nb[q] = n; guard[f] = 0; ++q; };
        if (bytes) { raw("in/raw", 1); form("in/raw", 1); raw("@raw", 1); form("@raw", 1); vecf("in/vec", 8); form("in/vec", 0); vecf("@d/vec", 8); form("@d/vec", 0); }
        else {
            vecf("in/vec", 64); form("in/vec", 0); vecf("@d/vec", bits::hi(mx) + 1); form("@d/vec", 0);
            int w = mx < 256 ? 1 : mx < 65536 ? 2 : 4;
            raw("in/raw", w); form("in/raw", w); raw("@raw", 8); form("@raw", 8);
            { osfstream o("in/dec"); for (u64 c : s2) o << c << (c % 3 ? " " : "\n"); o.close(); } form("in/dec", 'd');
        }
        forms = q;
        for (const char* f : {"c/note.sdsl", "other/sa_1.sdsl", "@note", "@d/lcp_x.sdsl", "lcp_sml"}) { osfstream o(f, std::ios::out | std::ios::binary | std::ios::trunc); std::string b = std::string("data of ") + f; o.write(b.data(), b.size()); o.close(); guard[f] = 0; }
        for (auto& g : guard) g.second = fnv(slurp(g.first));
        dir("dir");
    }
    // files which are not as they were left (reported once)
    std::vector<std::string> changed() { std::vector<std::string> r; for (auto& g : guard) { u64 h = fnv(slurp(g.first)); if (h != g.second) { r.push_back(g.first); g.second = h; } } return r; }
    void dir(const char* op) { tr::emit(tr::Ev(op).f("after", V(listing()))); }
    void perturb() { mallopt(M_PERTURB, 1 + (int)r.below(254)); }
    int form(const Type& t) {
        for (;;) { int q = r.below(forms); if (t.bytes && nb[q] == 0 && (t.kind == 4 || t.wide)) continue; if (t.kind == 4 && !t.bytes && nb[q] == 1) continue; return q; }
    }
    // the default way: no cache
    void plain(const Type& t) {
        perturb();
        std::string f, how;
        if (t.kind != 4 && r.chance(1, 3)) { vec s = x.syms(); s.pop_back(); how = "im"; f = t.im(s, r.below(2)); }
        else { int q = form(t); how = "file " + in[q]; f = t.file(in[q], nullptr, nb[q]); }
        tr::emit(tr::Ev("build").f("idx", t.id).f("name", t.name).f("how", how).f("fp", f).f("del", 1).f("mine", std::vector<std::string>()).f("changed", changed()).f("after", V(listing())));
    }
    void through(const Type& t, cache_config& c, bool del) {
        names before = listing(), mine, reg;
        std::string tag = "_" + c.id + ".sdsl";
        for (auto& n : before) if (n.size() > tag.size() && n.compare(n.size() - tag.size(), tag.size(), tag) == 0) mine.insert(n);
        for (auto& m : c.file_map) mine.insert(canon(m.second));
        c.delete_files = del;
        int q = form(t);
        perturb();
        std::string f = t.file(in[q], &c, nb[q]);
        for (auto& m : c.file_map) reg.insert(canon(m.second));
        tr::emit(tr::Ev("build").f("idx", t.id).f("name", t.name).f("how", in[q] + " cache " + c.dir).f("fp", f).f("del", del).f("mine", V(mine)).f("reg", V(reg)).f("changed", changed()).f("after", V(listing())));
        if (!del) for (auto& m : c.file_map) entry(m.first, m.second, t);
    }
    void entry(const std::string& key, const std::string& f, const Type& t) {
        std::string b = slurp(f);
        if (b == "?") return;
        if (key.compare(0, 4, "csa_") == 0) { if (!t.csa.empty() && key == csakey(t)) tr::emit(tr::Ev("object").f("idx", t.csa).f("key", key).f("fp", t.cached(f))); return; }
        std::string k = key + std::to_string(fnv(b));
        if (!seen.insert(k).second) return;
        vec v;
        if (key == "text" || key == "bwt") { int_vector<8> w; load_from_file(w, f); v.assign(w.begin(), w.end()); }
        else { int_vector<> w; load_from_file(w, f); v.assign(w.begin(), w.end()); }
        if (key.compare(0, 4, "text") == 0 || key.compare(0, 3, "bwt") == 0) { std::vector<long> c; for (u64 s : v) c.push_back(x.code(s)); tr::emit(tr::Ev("entry").f("key", key).f("res", c)); }
        else if (key == "sa" || key == "isa" || key == "lcp" || key == "psi") tr::emit(tr::Ev("entry").f("key", key).f("res", v));
    }
    std::string csakey(const Type& t) { return t.ckey; }
    std::string drop(cache_config& c, int k) {
        static const char* K[] = {"", "text", "sa", "bwt", "isa", "psi", "csa", "lcp"};
        std::string res;
        if (k == 6) {      // whatever csa is stored under this id
            std::vector<std::string> ks;
            for (auto& m : c.file_map) if (m.first.compare(0, 4, "csa_") == 0) ks.push_back(m.first);
            for (auto& s : ks) { sdsl::remove(c.file_map[s]); c.file_map.erase(s); }
        } else {
            std::vector<std::string> ks{K[k]};
            if (k == 1 || k == 3) ks.push_back(std::string(K[k]) + "_int");
            for (auto& s : ks) if (cache_file_exists(s, c)) { sdsl::remove(cache_file_name(s, c)); c.file_map.erase(s); }
        }
        return res;
    }
};
static const Type& pick(int kind, bool bytes, tr::Rng& r)
{
    std::vector<const Type*> c;
    for (auto& t : types()) if (t.bytes == bytes && t.kind == kind) c.push_back(&t);
    if (c.empty()) for (auto& t : types()) if (t.bytes == bytes) c.push_back(&t);
    return *c[r.below(c.size())];
}
static const char* DIRS[] = {"c", "@", "@d", "./", "@e/f", "./c"};
// a history: <<1,kind,del>>, <<2,key,0>>, <<3,0,0>>, <<4,0,0>>
static void history(Session& s, const std::vector<std::vector<long>>& h)
{
    int d = s.r.below(6), no = 0;
    auto id = [&] { return s.r.chance(1, 2) ? "x" + std::to_string(no++) + "_" + std::to_string(s.r.below(1000000)) : std::string(); };
    std::unique_ptr<cache_config> c(new cache_config(false, DIRS[d], id()));
    for (auto& e : h) {
        if (e[0] == 1) s.through(pick(e[1], s.bytes, s.r), *c, e[2]);
        else {
            if (e[0] == 2) s.drop(*c, e[1]);
            else if (e[0] == 3) { bool m = false; for (auto& f : c->file_map) m = m || f.first.compare(0, 4, "csa_") == 0; c.reset(new cache_config(c->delete_files, c->dir, c->id)); }
            else c.reset(new cache_config(false, DIRS[s.r.below(6)], id()));
            s.dir("dir");
        }
    }
}
// several threads build at the same time in the same directories
static void threads(Session& s, int k)
{
    std::vector<std::thread> th;
    std::vector<std::string> f(k);
    std::vector<const Type*> ty(k);
    std::vector<int> q(k);
    for (int i = 0; i < k; ++i) { do ty[i] = &types()[s.r.below(types().size())]; while (ty[i]->bytes != s.bytes); q[i] = s.form(*ty[i]); }
    for (int i = 0; i < k; ++i) th.emplace_back([&, i] { f[i] = ty[i]->file(s.in[q[i]], nullptr, s.nb[q[i]]); });
    for (auto& t : th) t.join();
    for (int i = 0; i < k; ++i)
        if (i + 1 < k) tr::emit(tr::Ev("object").f("idx", ty[i]->id).f("name", ty[i]->name).f("fp", f[i]));
        else tr::emit(tr::Ev("build").f("idx", ty[i]->id).f("name", ty[i]->name).f("how", "threads").f("fp", f[i]).f("del", 1).f("mine", std::vector<std::string>()).f("changed", s.changed()).f("after", V(listing())));
}
// a text containing the terminator is refused
static void refuse(Session& s, const Type& t)
{
    vec v = s.x.syms(); v.pop_back(); v[s.r.below(v.size())] = 0;
    std::string how = "im", res = "built";
    try {
        if (s.r.chance(1, 2) && t.kind != 4) t.im(v, s.r.below(2));
        else {
            how = s.r.chance(1, 2) ? "in/zero" : "@zero";
            int w = s.bytes ? 1 : 8;
            { osfstream o(how, std::ios::out | std::ios::binary | std::ios::trunc); for (u64 c : v) { char z[8]; for (int i = 0; i < w; ++i) z[i] = c >> (8 * i); o.write(z, w); } o.close(); }
            s.dir("dir");
            t.file(how, nullptr, w);
        }
    } catch (const std::logic_error&) { res = "refused"; }
    tr::emit(tr::Ev("refuse").f("name", t.name).f("how", how).f("res", res).f("changed", s.changed()).f("after", V(listing())));
}
static std::string nm(const char* a, u64 i) { return std::string(a) + " part " + std::to_string(PART) + " " + std::to_string(i); }
typedef std::vector<std::vector<long>> Hist;
static std::vector<Hist> hists()
{
    std::vector<Hist> h;
    std::ifstream in(tr::inputs);
    std::string l;
    while (std::getline(in, l)) {
        Hist x; std::vector<long> cur; int depth = 0;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l.compare(i, 2, "<<") == 0) { ++depth; ++i; cur.clear(); }
            else if (l.compare(i, 2, ">>") == 0) { if (depth == 2) x.push_back(cur); --depth; ++i; }
            else if (isdigit(l[i])) { long v = 0; while (i < l.size() && isdigit(l[i])) v = 10 * v + (l[i++] - '0'); --i; cur.push_back(v); }
        }
        h.push_back(x);
    }
    return h;
}
static Text some(bool bytes, tr::Rng& r, int level) { auto t = texts(bytes, r.below(1000), level); return t[r.below(t.size())](); }
#if PART == 0
static void grids(u64 i)
{
    tr::Rng r(tr::seed * 41 + i);
    Session s(some(true, r, 0), true, r.next());
    std::string pre = i % 2 ? "in/g" : "@g";
    int n = 1 + r.below(60);
    int_vector<> a[3];
    std::set<std::pair<u64, u64>> u;
    while ((int)u.size() < n) u.insert({r.below(100), r.below(100)});
    for (int d = 0; d < 3; ++d) a[d] = int_vector<>(n, 0, 20);
    int k = 0;
    std::vector<std::array<u64, 3>> v;
    for (auto& p : u) { a[0][k] = p.first; a[1][k] = p.second; a[2][k] = r.below(1000); v.push_back({p.first, p.second, a[2][k]}); ++k; }
    const char* ext[] = {".x", ".y", ".w"};
    for (int d = 0; d < 3; ++d) { store_to_file(a[d], pre + ext[d]); s.guard[pre + ext[d]] = fnv(slurp(pre + ext[d])); }
    s.dir("dir");
    auto done = [&](const char* name, const std::string& f) { tr::emit(tr::Ev("build").f("idx", name).f("name", name).f("how", pre).f("fp", f).f("del", 1).f("mine", std::vector<std::string>()).f("changed", s.changed()).f("after", V(listing()))); };
    for (int z = 0; z < 2; ++z) {
        s.perturb();
        { k2_treap<2> t; construct(t, pre); done("k2_treap<2>", fp(t)); }
        { k2_treap<3, rrr_vector<63>> t; construct(t, pre); done("k2_treap<3,rrr>", fp(t)); }
        { k2_treap<2> t; construct_im(t, v); done("k2_treap<2>", fp(t)); }
        { k2_tree<2> t(pre, 100); done("k2_tree<2>", fp(t)); }
        { k2_tree<4> t(pre, 100); done("k2_tree<4>", fp(t)); }
    }
}
#endif
static void reg()
{
#ifndef ONLY_THREADS
    auto h = hists();
    for (size_t i = 0; i < h.size(); ++i)
        if (i % PARTS == PART) tr::job(nm("replay", i), [h, i] {
            tr::Rng r(tr::seed * 13 + i * 5 + PART);
            bool b = PART != 1 ? r.chance(4, 5) : r.chance(1, 8);
            Session s(some(b, r, i % 4 == 0), b, r.next());
            history(s, h[i]);
        });
    for (int i = 0; i < (tr::thorough ? 60 : 8); ++i)
        tr::job(nm("plain", i), [=] {
            tr::Rng r(tr::seed * 29 + i * 3 + PART);
            bool b = PART == 1 ? false : i % 4 != 3;
            Session s(some(b, r, i % 3), b, r.next());
            for (int z = 0; z < 2; ++z) for (auto& t : types()) if (t.bytes == b) s.plain(t);
            for (auto& t : types()) if (t.bytes == b && t.kind != 8) refuse(s, t);
            construct_config::byte_algo_sa = SE_SAIS;
            for (auto& t : types()) if (t.bytes == b && r.chance(1, 2)) s.plain(t);
        });
#endif
    for (int i = 0; i < (tr::thorough ? 40 : 6); ++i)
        tr::job(nm("threads", i), [=] {
            tr::Rng r(tr::seed * 53 + i * 3 + PART);
            bool b = PART == 1 ? false : true;
            Session s(some(b, r, i % 2), b, r.next());
            for (int z = 0; z < 6; ++z) threads(s, 3 + r.below(6));
        });
#if PART == 0 && !defined(ONLY_THREADS)
    for (u64 i = 0; i < (tr::thorough ? 40u : 6u); ++i) tr::job(nm("grid", i), [=] { grids(i); });
#endif
}
TR_REGISTER(reg);
