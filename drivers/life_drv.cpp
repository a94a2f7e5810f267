// C10, C11: life cycles of the library's objects.  Histories come from the specification (Life.tla).
#if PART == 7
#define WITH_K2
#endif
#include "life_types.hpp"
#include <malloc.h>
#include <fstream>
using namespace life;
template<class T, class = void> struct has_swap : std::false_type {};
template<class T> struct has_swap<T, decltype(std::declval<T&>().swap(std::declval<T&>()), void())> : std::true_type {};
template<class T> typename std::enable_if<has_swap<T>::value>::type swp(T& a, T& b) { a.swap(b); }
template<class T> typename std::enable_if<!has_swap<T>::value>::type swp(T& a, T& b) { std::swap(a, b); }
typedef std::vector<std::vector<long>> Hist;
static std::vector<Hist>& hists()
{
    static std::vector<Hist> h;
    static bool done = false;
    if (done) return h;
    done = true;
    std::ifstream in(tr::inputs);
    std::string l;
    while (std::getline(in, l)) {
        Hist x;
        std::vector<long> cur;
        int depth = 0;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l.compare(i, 2, "<<") == 0) { ++depth; ++i; cur.clear(); }
            else if (l.compare(i, 2, ">>") == 0) { if (depth == 2) x.push_back(cur); --depth; ++i; }
            else if (isdigit(l[i])) { long v = 0; while (i < l.size() && isdigit(l[i])) v = 10 * v + (l[i++] - '0'); --i; cur.push_back(v); }
        }
        h.push_back(x);
    }
    return h;
}
static void perturb(u64 x) { mallopt(M_PERTURB, 1 + (int)(x % 254)); }
// what is written, by a counting stream buffer of our own
static std::string bytes_of(const std::function<u64(std::ostream&)>& f, u64& ret) { std::ostringstream o; ret = f(o); return o.str(); }
struct Alien { u64 x; Alien() : x(0) {} void load(std::istream&) {} };
static bool det = true;      // all default objects store the same bytes
static const char* NAMES[] = {"", "new", "make", "copyctor", "movector", "copyassign", "moveassign", "swap", "destroy", "store", "rewind", "load", "clear", "fstore", "fload", "alien"};
template<class T, class K> struct Life {
    static std::string fp(const T& t, int v) {
        if (v == 0) { u64 r; std::string b = bytes_of([&](std::ostream& o) { return (u64)t.serialize(o); }, r); return "default " + std::to_string(b.size()) + " " + std::to_string(fnv(b)); }
        FP f; K::fp(t, f); return f.str();
    }
    static void value(int v, tr::Rng& g) {
        perturb(g.next());
        std::unique_ptr<T> t(fresh<T>(g));
        if (v) K::make(*t, v);
        u64 r;
        std::string b = bytes_of([&](std::ostream& o) { return (u64)t->serialize(o); }, r);
        u64 n = b.size();
        std::string w = fp(*t, v);
        if (v == 0) {       // members without a value in a default object: then only the length of what is stored is compared
            perturb(g.next() | 1);
            std::unique_ptr<T> t2(fresh<T>(g)), t3;
            void* m = malloc(sizeof(T)); memset(m, 0x5a, sizeof(T)); free(m);
            t3.reset(fresh<T>(g));
            det = det && w == fp(*t2, 0) && w == fp(*t3, 0);
            if (!det) { w = w.substr(0, w.rfind(' ')); b = ""; }
        }
        tr::emit(tr::Ev("value").f("v", v).f("fp", w).f("ret", r).f("len", n).f("hash", tr::hex64(fnv(b))));
    }
    static void run(const Hist& h, tr::Rng& g) {
        tr::emit(tr::Ev("start"));
        T* s[4] = {nullptr, nullptr, nullptr, nullptr};
        int val[4] = {-2, -2, -2, -2};
        std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
        std::vector<int> what; size_t cur = 0; std::vector<u64> pos(1, 0);
        struct { int v; bool chk; } file[3] = {{-2, false}, {-2, false}, {-2, false}};
        static int runs = 0;
        std::string base = (runs++ % 2 ? tr::scratch + "/f" : "@life");
        for (auto& o : h) {
            perturb(g.next());
            int c = o[0], a = o[1], b = o[2];
            tr::Ev e(NAMES[c]);
            e.f("o", o);
            switch (c) {
                case 1: s[a] = fresh<T>(g); val[a] = 0; break;
                case 2: K::make(*s[a], b); val[a] = b; break;
                case 3: s[a] = g.next() & 1 ? new T(*(const T*)s[b]) : new T(*s[b]); val[a] = val[b]; break;
                case 4: s[a] = new T(std::move(*s[b])); val[a] = val[b]; val[b] = -1; break;
                case 5: if (g.next() & 1) *s[a] = *(const T*)s[b]; else *s[a] = *s[b]; val[a] = val[b]; break;
                case 6: *s[a] = std::move(*s[b]); if (a != b) { val[a] = val[b]; val[b] = -1; } break;
                case 7: swp(*s[a], *s[b]); std::swap(val[a], val[b]); break;
                case 8: delete s[a]; s[a] = nullptr; val[a] = -2; break;
                case 9: {
                    st.clear();
                    st.seekp(0, std::ios::end);
                    u64 p = pos.back();
                    u64 r = s[a]->serialize(st);
                    st.clear();
                    std::string all = st.str();
                    pos.push_back(all.size());
                    what.push_back(val[a]);
                    e.f("ret", r).f("act", all.size() - p).f("hash", val[a] == 0 && !det ? tr::hex64(fnv("")) : tr::hex64(fnv(all.substr(p))));
                    break;
                }
                case 10: cur = 0; st.clear(); st.seekg(0); break;
                case 11: {
                    st.clear();
                    s[a]->load(st);
                    e.f("good", st.good()).f("pos", (long)st.tellg());
                    val[a] = what[cur++];
                    break;
                }
                case 12: st.str(""); st.clear(); what.clear(); pos.assign(1, 0); cur = 0; break;
                case 13: {
                    std::string f = base + std::to_string(b);
                    bool r = o[3] ? store_to_checked_file(*s[a], f) : store_to_file(*s[a], f);
                    isfstream in(f, std::ios::binary | std::ios::in);
                    std::string all;
                    char buf[4096];
                    while (in.read(buf, sizeof buf) || in.gcount()) all.append(buf, in.gcount());
                    file[b].v = val[a]; file[b].chk |= o[3] != 0;
                    e.f("ret", r).f("act", all.size()).f("hash", val[a] == 0 && !det ? tr::hex64(fnv("")) : tr::hex64(fnv(all)));
                    break;
                }
                case 14: {
                    std::string f = base + std::to_string(b);
                    bool r = o[3] ? load_from_checked_file(*s[a], f) : load_from_file(*s[a], f);
                    e.f("ret", r);
                    if (file[b].v != -2 && (!o[3] || file[b].chk)) val[a] = file[b].v;
                    break;
                }
                case 15: { Alien z; e.f("ret", load_from_checked_file(z, base + std::to_string(b))); break; }
            }
            perturb(g.next());
            std::string obs = "[";
            for (int i = 1; i <= 3; ++i) if (val[i] >= 0) { if (obs.size() > 1) obs += ","; std::string w = fp(*s[i], val[i]); if (val[i] == 0 && !det) w = w.substr(0, w.rfind(' ')); obs += "[" + tr::jv(i) + "," + tr::jv(w) + "]"; }
            e.f("obs", tr::J{obs + "]"});
            tr::emit(e);
        }
        for (int i = 1; i <= 3; ++i) delete s[i];
        for (int i = 1; i <= 2; ++i) { sdsl::remove(base + std::to_string(i)); sdsl::remove(base + std::to_string(i) + "_check"); }
    }
    static void all(const std::string& name) {
        tr::Rng g(tr::seed * 31 + fnv(name));
        perturb(1);
        tr::emit(tr::Ev("kind").f("name", name));
        det = true;
        for (int z = 0; z < 6; ++z) { perturb(g.next()); T* t = fresh<T>(g); std::string w = fp(*t, 0); delete t; static std::string w0; if (z == 0) w0 = w; det = det && w == w0; }
        for (int z = 0; z < 2; ++z) for (int v = 0; v <= 4; ++v) value(v, g);
        auto& hs = hists();
        size_t n = hs.size(), k = tr::thorough ? n : std::min<size_t>(n, MAXH), off = g.below(n);
        for (size_t i = 0; i < k; ++i) run(hs[(off + i * (n / k)) % n], g);
    }
};
#if PART == 0
// vectors of around 2^22 words and more: they are stored and read in blocks
template<class T> struct BigVec {
    static void make(T& t, int v) {
        u64 words = v == 1 ? (1 << 22) - 1 : v == 2 ? (1 << 22) : v == 3 ? (1 << 22) + 1 : (1 << 23) + 3;
        T r(0, 0, 17);
        u64 n = (words * 64 - (v == 4 ? 40 : 0)) / r.width();
        r.resize(n);
        u64 bits = n * r.width(), x = 88172645463325252ULL + v;
        for (u64 i = 0; i * 64 < bits; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r.data()[i] = x; }
        if (bits & 63) r.data()[bits >> 6] &= (1ULL << (bits & 63)) - 1;
        t = r;
    }
    static void fp(const T& t, FP& f) {
        f(t.size())(t.width())(t.bit_size())(t.empty());
        u64 h = 1469598103934665603ULL;
        for (u64 i = 0; i * 64 < t.bit_size(); ++i) { h ^= t.data()[i]; h *= 1099511628211ULL; h ^= h >> 29; }
        f(h);
        sample(t.size(), 4000, [&](u64 i) { f(t[i]); });
    }
};
template<class T> void big(const char* name) {
    tr::job(std::string("big ") + name, [=] {
        typedef Life<T, BigVec<T>> L;
        tr::Rng g(tr::seed * 131);
        perturb(1);
        tr::emit(tr::Ev("kind").f("name", name));
        det = true;
        for (int v = 0; v <= 4; ++v) L::value(v, g);
        L::run({{1, 1, 0, 0}, {2, 1, 4, 0}, {9, 1, 0, 0}, {2, 1, 3, 0}, {9, 1, 0, 0}, {1, 2, 0, 0}, {10, 0, 0, 0}, {11, 2, 0, 0}, {11, 2, 0, 0}, {3, 3, 2, 0}}, g);
        L::run({{1, 1, 0, 0}, {2, 1, 2, 0}, {13, 1, 1, 1}, {1, 2, 0, 0}, {14, 2, 1, 1}, {2, 1, 4, 0}, {13, 1, 2, 0}, {7, 1, 2, 0}, {14, 1, 2, 0}}, g);
        L::run({{1, 1, 0, 0}, {1, 2, 0, 0}, {2, 1, 1, 0}, {9, 1, 0, 0}, {9, 2, 0, 0}, {2, 2, 4, 0}, {10, 0, 0, 0}, {11, 2, 0, 0}, {11, 1, 0, 0}}, g);
    }, 240);
}
#endif
template<class T, class K> void kind(const std::string& name) { tr::job(name, [=] { Life<T, K>::all(name); }, 240); }
#define K_(KIND, ...) kind<__VA_ARGS__, KIND<__VA_ARGS__>>(#__VA_ARGS__)
#define H_(KIND, ...) kind<KIND<__VA_ARGS__>::T, KIND<__VA_ARGS__>>(#KIND " " #__VA_ARGS__)
#define S_(...) kind<__VA_ARGS__, __VA_ARGS__>(#__VA_ARGS__)
#include "life_list.inc"
TR_REGISTER(reg);
#if PART == 0
static void reg_big() { big<int_vector<64>>("int_vector<64>"); big<int_vector<>>("int_vector<>"); big<bit_vector>("int_vector<1>"); }
TR_REGISTER(reg_big);
#endif
