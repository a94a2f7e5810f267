// C08: histories of int_vector_mapper, random and replayed from TLC (MapperMC).
#include "huge.hpp"
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/util.hpp>
#include <fstream>
#include <memory>
using namespace tr;
using namespace sdsl;
typedef uint64_t u64;
template<class V> static std::string bitsof(const V& v) {
    std::string r = "[";
    u64 n = v.bit_size();
    for (u64 i = 0; i < n; ++i) { if (i) r += ','; r += '0' + v.get_int(i, 1); }
    return r + "]";
}
template<class M> static J dump(const M& m) {
    return J{"[" + jv(m.width()) + "," + bitsof(m) + "," + jv(m.size()) + "," + jv(m.bit_size()) + "," + jv(m.empty()) + "," + jv(m.capacity() >= m.size()) + "]"};
}
static std::string raw(const std::string& f) {
    std::ifstream in(f, std::ios::binary);
    if (!in.good()) return "!";
    return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
template<uint8_t W> struct H {
    typedef int_vector_mapper<W> M;
    typedef int_vector_mapper<W, std::ios_base::in> RO;
    static const int R = 3, F = 5;
    std::unique_ptr<M> m[R];
    std::unique_ptr<const RO> ro[R];
    int file[R];
    bool exists[F], plain[F], del[F];
    Rng g;
    cache_config cfg;
    std::string names[F];
    H(u64 s) : g(s), cfg(false, scratch, "map") {
        for (int i = 0; i < R; ++i) file[i] = -1;
        for (int i = 0; i < F; ++i) { exists[i] = plain[i] = del[i] = false; names[i] = scratch + "/m" + jv(i); }
        emit(Ev("start").f("tw", (int)W));
    }
    std::string nm(int f) { return names[f]; }
    bool used(int f) { for (int r = 0; r < R; ++r) if (file[r] == f) return true; return false; }
    bool has(int r) { return file[r] >= 0; }
    u64 val(int w) {
        u64 x = g.next();
        if (w < 64) x &= (1ULL << w) - 1;
        switch (g.below(5)) { case 0: return 0; case 1: return w < 64 ? (1ULL << w) - 1 : ~0ULL; case 2: return g.below(2); }
        return x;
    }
    // a file with given contents, written without the mapper
    void create(int f, u64 n, int w, bool pl) {
        names[f] = scratch + "/m" + jv(f);
        plain[f] = pl; exists[f] = true; del[f] = false;
        int_vector<W> v(n, 0, w);
        for (u64 i = 0; i < n; ++i) v[i] = val(w);
        if (pl) {
            std::ofstream o(nm(f), std::ios::binary | std::ios::trunc);
            o.write((const char*)v.data(), n * w / 8);
        } else store_to_file(v, nm(f));
        emit(Ev("create").f("f", f).f("plain", pl).f("w", (int)v.width()).f("b", J{bitsof(v)}));
    }
    void open(int r, int f, bool rdonly) {
        if (rdonly) ro[r].reset(new RO(nm(f), plain[f])); else m[r].reset(new M(nm(f), plain[f], del[f] = g.chance(1, 10)));
        file[r] = f;
        emit(Ev("open").f("r", r).f("f", f).f("ro", rdonly).f("del", rdonly ? false : del[f]));
        show(r);
    }
    void fresh(int r, int f, int kind) {
        names[f] = scratch + "/m" + jv(f);
        switch (kind) {
            case 0: m[r].reset(new M(temp_file_buffer<W>::create(cfg))); names[f] = m[r]->file_name(); del[f] = true; break;
            case 1: m[r].reset(new M(temp_file_buffer<W>::create(nm(f)))); del[f] = true; break;
            case 2: m[r].reset(new M(write_out_buffer<W>::create(nm(f)))); del[f] = false; break;
            case 3: m[r].reset(new M(write_out_buffer<W>::create("key" + jv(f), cfg))); names[f] = m[r]->file_name(); del[f] = false; break;
        }
        exists[f] = true; plain[f] = false; file[r] = f;
        int_vector<W> e;
        emit(Ev("create").f("f", f).f("plain", false).f("w", (int)e.width()).f("b", std::vector<int>()));
        emit(Ev("open").f("r", r).f("f", f).f("ro", false).f("del", del[f]));
        show(r);
    }
    void show(int r) {
        if (m[r]) emit(Ev("show").f("r", r).f("a", dump(*m[r])).f("fn", m[r]->file_name() == nm(file[r])));
        else emit(Ev("show").f("r", r).f("a", dump(*ro[r])).f("fn", ro[r]->file_name() == nm(file[r])));
    }
    Ev& a(Ev& e, int r) { return e.f("a", dump(*m[r])); }
    void set(int r, u64 i, u64 x) { (*m[r])[i] = x; Ev e("set"); e.f("r", r).f("i", i).f("x", bits64(x, m[r]->width())); emit(a(e, r)); }
    void setint(int r, u64 i, int len, u64 x) { m[r]->set_int(i, x, len); Ev e("setint"); e.f("r", r).f("i", i).f("len", len).f("x", bits64(x, 64)); emit(a(e, r)); }
    void push(int r, u64 x) { m[r]->push_back(x); Ev e("push"); e.f("r", r).f("x", bits64(x, m[r]->width())); emit(a(e, r)); }
    void resize(int r, u64 n) { m[r]->resize(n); Ev e("resize"); e.f("r", r).f("n", n * m[r]->width()); emit(a(e, r)); }
    void bresize(int r, u64 n) { m[r]->bit_resize(n); Ev e("resize"); e.f("r", r).f("n", n); emit(a(e, r)); }
    void width(int r, int w) { m[r]->width(w); Ev e("width"); e.f("r", r).f("w", w); emit(a(e, r)); }
    template<class X> static void doflip(X& x, std::true_type) { x.flip(); }
    template<class X> static void doflip(X&, std::false_type) {}
    void flip(int r) { if (W != 1) { read(r); return; } doflip(*m[r], std::integral_constant<bool, W == 1>()); Ev e("flip"); e.f("r", r); emit(a(e, r)); }
    void read(int r) {
        std::vector<J> v, it;
        if (m[r]) {
            for (u64 i = 0; i < m[r]->size(); ++i) v.push_back(bits64((u64)(*m[r])[i], m[r]->width()));
            for (auto x = m[r]->cbegin(); x != m[r]->cend(); ++x) it.push_back(bits64((u64)*x, m[r]->width()));
        } else {
            for (u64 i = 0; i < ro[r]->size(); ++i) v.push_back(bits64((u64)(*ro[r])[i], ro[r]->width()));
            for (auto x = ro[r]->begin(); x != ro[r]->end(); ++x) it.push_back(bits64((u64)*x, ro[r]->width()));
        }
        emit(Ev("read").f("r", r).f("res", v).f("it", it));
    }
    void cmp(int r) {
        // an equal copy and copies that differ in one element / width / length
        M& x = *m[r];
        int_vector<W> c; c.bit_resize(x.bit_size()); c.width(x.width());
        for (u64 i = 0; i < x.bit_size(); ++i) c.set_int(i, x.get_int(i, 1), 1);
        std::vector<u64> sv(x.cbegin(), x.cend());
        bool eq = x == c, eqs = x.size() ? x == sv : true, ne = true, nes = true, self = x == x;
        if (x.size()) {
            u64 i = g.below(x.size());
            u64 old = c[i];
            c[i] = old ^ 1; ne = !(x == c); sv[i] ^= 1; nes = x != sv;
        }
        emit(Ev("cmp").f("r", r).f("res", std::vector<int>{eq, eqs, ne, nes, self}));
    }
    void filecheck(int f) {
        std::string s = raw(nm(f));
        Ev e("file");
        e.f("f", f).f("len", s == "!" ? -1L : (long)s.size());
        if (s != "!") {
            if (plain[f]) {
                int_vector<8> v(s.size());
                for (size_t i = 0; i < s.size(); ++i) v[i] = (unsigned char)s[i];
                e.f("w", (int)W).f("b", J{bitsof(v)}).f("ok", 1);
            } else {
                int_vector<W> v; bool ok = load_from_file(v, nm(f));
                e.f("w", (int)v.width()).f("b", J{bitsof(v)}).f("ok", ok);
            }
            std::vector<J> el;
            bool ragged = false;   // a buffer is a sequence of whole elements
            if (!plain[f]) { int_vector<W> v; load_from_file(v, nm(f)); ragged = v.bit_size() % v.width(); }
            if (!ragged) { { int_vector_buffer<W> b(nm(f), std::ios::in, 64, W ? W : 8, plain[f]); for (u64 i = 0; i < b.size(); ++i) el.push_back(bits64((u64)b[i], b.width())); b.close(); }
            e.f("buf", el); }
        }
        emit(e);
    }
    void close(int r) {
        int f = file[r];
        m[r].reset(); ro[r].reset();
        file[r] = -1;
        emit(Ev("close").f("r", r));
        if (del[f]) exists[f] = false;
        del[f] = false;
        filecheck(f);
    }
    void move(int r, int s, bool ctor) {      // s takes over the mapping of r
        if (r == s || !m[r] || ro[s]) return;
        int old = file[s];
        if (m[s] && !ctor) *m[s] = std::move(*m[r]);
        else {
            bool had = (bool)m[s];
            m[s].reset();
            (void)had;
            m[s].reset(new M(std::move(*m[r])));
        }
        m[r].reset();            // the moved-from object is destroyed: nothing may happen to the file
        file[s] = file[r]; file[r] = -1;
        emit(Ev("move").f("r", r).f("s", s));
        if (old >= 0) { if (del[old]) exists[old] = false; del[old] = false; filecheck(old); }
        show(s);
    }
    void absent(int f) {      // opening a missing file is refused
        bool thrown = false;
        try { M x(scratch + "/missing" + jv(f)); } catch (const std::runtime_error&) { thrown = true; }
        emit(Ev("absent").f("res", thrown));
    }
    void finish() { for (int r = 0; r < R; ++r) if (has(r)) { read(r); close(r); } }
};
template<uint8_t W> static void hist(u64 s, int steps) {
    H<W> h(s);
    Rng& g = h.g;
    const bool P = W == 8 || W == 16 || W == 32 || W == 64;
    for (int k = 0; k < steps; ++k) {
        int r = g.below(H<W>::R);
        if (!h.has(r)) {
            int f = g.below(H<W>::F);
            if (h.used(f)) continue;
            if (!h.exists[f] || g.chance(1, 4)) {
                if (g.chance(1, 3)) { h.fresh(r, f, g.below(4)); continue; }
                int w = W ? W : (int)g.in(1, 64);
                u64 n = g.chance(1, 6) ? 0 : g.below(1 + 200 / w) + g.below(3);
                h.create(f, n, w, P && g.chance(1, 2));
                if (g.chance(1, 3)) h.filecheck(f);
            }
            h.open(r, f, g.chance(1, 5));
            continue;
        }
        if (h.ro[r]) { if (g.chance(1, 2)) h.read(r); else if (g.chance(1, 3)) h.show(r); else h.close(r); continue; }
        auto& m = *h.m[r];
        u64 n = m.size(); int w = m.width();
        switch (g.below(16)) {
            case 0: case 1: if (n) { h.set(r, g.below(n), h.val(w)); break; }
            case 2: case 3: { int c = g.below(4); for (int i = 0; i <= c; ++i) if (m.bit_size() % w == 0) h.push(r, h.val(w)); break; }
            case 4: { u64 b = m.bit_size(); if (b) { u64 i = g.below(b); int len = 1 + g.below(std::min<u64>({64, b - i, W == 1 ? 64 : W >= 8 && (W & 7) == 0 ? W : 64})); h.setint(r, i, len, g.next()); } break; }
            case 5: case 6: h.resize(r, g.chance(1, 8) ? 0 : g.below(n + 6)); break;
            case 7: if (W == 1 || W == 0) h.bresize(r, g.below(m.bit_size() + 80)); else h.resize(r, g.below(n + 3)); break;
            case 8: if (W == 0) h.width(r, g.in(1, 64)); break;
            case 9: h.flip(r); break;
            case 10: h.read(r); break;
            case 11: h.cmp(r); break;
            case 12: case 13: h.close(r); break;
            case 14: { int q = g.below(H<W>::R); h.move(r, q, g.chance(1, 2)); break; }
            case 15: if (g.chance(1, 4)) h.absent(0); else h.show(r); break;
        }
        if (h.has(r) && h.m[r] && h.m[r]->bit_size() > 400) h.resize(r, 2);
    }
    h.finish();
}
template<uint8_t W> static void replay(const std::vector<std::vector<long>>& ops, bool pl) {
    H<W> h(1);
    h.create(0, 0, W, pl); h.create(1, 0, W, pl);
    for (auto& o : ops) {
        int r = o[1] - 1;
        switch (o[0]) {
            case 1: h.m[r].reset(new int_vector_mapper<W>(h.nm(o[2] - 1), pl)); h.file[r] = o[2] - 1; emit(Ev("open").f("r", r).f("f", o[2] - 1).f("ro", false).f("del", false)); break;
            case 2: h.set(r, o[2], o[3]); break;
            case 3: h.push(r, o[2]); break;
            case 4: h.resize(r, o[2]); break;
            case 5: h.close(r); break;
            case 6: if (h.has(r)) h.move(r, o[2] - 1, h.has(o[2] - 1) ? false : true); else if (h.has(o[2] - 1)) h.close(o[2] - 1); break;
        }
    }
    h.finish();
}
static std::vector<std::vector<std::vector<long>>> behaviours() {
    std::vector<std::vector<std::vector<long>>> all;
    if (inputs.empty()) return all;
    std::ifstream in(inputs);
    std::string s;
    while (std::getline(in, s)) {
        std::vector<std::vector<long>> ops; std::vector<long> cur; bool num = false; long x = 0;
        for (size_t i = 0; i <= s.size(); ++i) {
            char c = i < s.size() ? s[i] : '>';
            if (c >= '0' && c <= '9') { x = (num ? x * 10 : 0) + (c - '0'); num = true; continue; }
            if (num) { cur.push_back(x); num = false; }
            if (c == '>' && !cur.empty()) { ops.push_back(cur); cur.clear(); }
        }
        all.push_back(ops);
    }
    return all;
}
// files of more than 2^32 bits and bytes (sparse ones)
template<uint8_t W> static void huge(unsigned w, u64 n, bool plain) {
    hg::Plan p(w, n);
    std::string f = scratch + "/huge";
    {
        std::ofstream o(f, std::ios::binary);
        if (!plain) { u64 bits = n * w; o.write((const char*)&bits, 8); if (W == 0) o.put((char)w); }
        o.seekp(plain ? n * w / 8 - 1 : (W == 0 ? 9 : 8) + 8 * ((n * w + 63) / 64) - 1);
        o.put(0);
    }
    {
        int_vector_mapper<W> m(f, plain, false);
        for (u64 i : p.at) { u64 x = p.value(i); if (p.g.chance(1, 2)) m[i] = x; else m.set_int(i * w, x, w); }
        std::vector<u64> q = p.queries(), a, b, c;
        for (u64 i : q) { a.push_back(m[i]); b.push_back(*(m.begin() + i)); c.push_back(m.get_int(i * w, w)); }
        p.emit("written", m.size(), q, {a, b, c});
    }
    {
        const int_vector_mapper<W, std::ios_base::in> m(f, plain, false);
        std::vector<u64> q = p.queries(), a, b;
        for (u64 i : q) { a.push_back(m[i]); b.push_back(*(m.begin() + i)); }
        p.emit("reopened", m.size(), q, {a, b});
    }
    if (!plain) {
        { int_vector_mapper<W> m(f, plain, false); u64 x = p.value(n); m.push_back(x); p.n = n + 1; }
        int_vector_mapper<W> m(f, plain, false);
        std::vector<u64> q = p.queries(), a;
        q.push_back(n);
        for (u64 i : q) a.push_back(m[i]);
        p.emit("pushed", m.size(), q, {a});
    }
    remove(f.c_str());
}
static void reg() {
    job("huge-0", [] { huge<0>(37, (1ULL << 27) + 1000, false); });
    job("huge-64", [] { huge<64>(64, (1ULL << 29) + 1000, false); });
    job("huge-5", [] { huge<5>(5, (1ULL << 30) + 77, false); });
    job("huge-8p", [] { huge<8>(8, (1ULL << 30) + 77, true); });
    int m = thorough ? 80 : 6;
    for (int k = 0; k < m; ++k) {
        u64 s = seed * 1000 + k;
#define FAM(W) job("hist-" #W "-" + jv(k), [=] { hist<W>(s * 7 + W, 100); });
        FAM(0) FAM(1) FAM(5) FAM(8) FAM(16) FAM(31) FAM(32) FAM(64)
    }
    int i = 0;
    for (auto& o : behaviours()) {
        job("gen8-" + jv(i), [=] { replay<8>(o, i % 2); });
        job("gen32-" + jv(i), [=] { replay<32>(o, i % 2 == 0); });
        job("gen31-" + jv(i), [=] { replay<31>(o, false); });
        ++i;
    }
}
TR_REGISTER(reg);
