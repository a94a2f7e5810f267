// C25: the large-page allocator.  Histories of HeapMC are replayed.  There are no large pages in the
// sandbox: a request for them is answered with ordinary pages, followed by a page that cannot be
// accessed.
#include <sstream>
#include "life_types.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fstream>
using namespace life;
static unsigned char* area = nullptr;
static size_t area_len = 0;
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept
{
    if (!(flags & MAP_HUGETLB)) return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
    size_t r = (n + 4095) / 4096 * 4096;
    char* p = (char*)syscall(SYS_mmap, nullptr, r + 8192, PROT_NONE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
    if (p == (char*)MAP_FAILED) return p;
    mprotect(p + 4096, r, PROT_READ | PROT_WRITE);
    memset(p + 4096, 0x5b, r);
    area = (unsigned char*)p + 4096; area_len = n;
    return area;
}
typedef std::vector<std::vector<long>> Hist;
static std::vector<Hist> hists()
{
    std::vector<Hist> h;
    std::ifstream in(tr::inputs);
    std::string l;
    while (std::getline(in, l)) {
        Hist x; std::vector<long> cur; int depth = 0;
        for (size_t i = 0; i < l.size(); ++i) {
            if (l.compare(i, 2, "<<") == 0) { ++depth; ++i; cur.clear(); }
            else if (l.compare(i, 2, ">>") == 0) { if (depth == 2) x.push_back(cur); --depth; ++i; }
            else if (isdigit(l[i])) { long v = 0; while (i < l.size() && isdigit(l[i])) v = 10 * v + (l[i++] - '0'); --i; cur.push_back(v); }
        }
        h.push_back(x);
    }
    return h;
}
static std::string hash(const unsigned char* p, size_t n) { FP f; for (size_t i = 0; i < n; ++i) f((u64)p[i]); char b[16]; snprintf(b, sizeof b, "%08x", (unsigned)(f.h ^ (f.h >> 32))); return b; }
struct Runner {
    hugepage_allocator al;
    struct S { unsigned char* p; size_t n; };
    std::map<int, S> s;
    tr::Rng g;
    size_t total;
    long top() {      // the reserved area ends where the allocator says
        long a = 0, b = total + 8;
        while (a < b) { long m = (a + b) / 2; if (al.in_address_space(area + m)) a = m + 1; else b = m; }
        return a;
    }
    Runner(u64 seed, size_t t) : g(seed), total(t) { al.init(t); }
    ~Runner() { munmap(area - 4096, (area_len + 4095) / 4096 * 4096 + 8192); }
    long off(void* p) { return p == nullptr ? -1 : (unsigned char*)p < area || (unsigned char*)p > area + total ? -2 : (unsigned char*)p - area; }
    void fill(S& x) { for (size_t i = 0; i < x.n; ++i) x.p[i] = (unsigned char)g.next(); }
    bool usable(const S& x) { return off(x.p) >= 0 && (size_t)off(x.p) + x.n <= total; }
    void op(const std::vector<long>& o) {
        int c = o[0], k = o[1];
        size_t n = o[2];
        bool have = s.count(k);
        if (c == 1 && have) c = 2;
        if (c != 1 && !have) { if (c == 3) return; c = 2; }
        if (c == 2 && have && n == 0) c = 3;
        static const char* NM[] = {"", "alloc", "realloc", "free"};
        tr::Ev e(NM[c]);
        e.f("s", k).f("n", n);
        try {
            if (c == 1) { S x{(unsigned char*)al.mm_alloc(n), n}; e.f("off", off(x.p)); s[k] = x; }
            else if (c == 2) {
                unsigned char* old = have ? s[k].p : nullptr;
                size_t m = have ? std::min(s[k].n, n) : 0;
                std::string a = hash(old, m);
                S x{(unsigned char*)al.mm_realloc(old, n), n};
                e.f("off", off(x.p)).f("pre", a).f("post", usable(x) ? hash(x.p, m) : "outside");
                s[k] = x;
            } else { al.mm_free(s[k].p); s.erase(k); e.f("off", -1); }
        } catch (const std::exception&) { e.f("off", -3); c = 0; }
        e.f("top", top());
        // the other blocks still hold what was written
        std::string r = "[";
        for (auto& x : s) if (c == 0 || x.first != k) { if (r.size() > 1) r += ","; r += "[" + tr::jv(x.first) + ",\"" + (usable(x.second) ? hash(x.second.p, x.second.n) : "outside") + "\"]"; }
        e.f("cont", tr::J{r + "]"});
        if (c == 1 || c == 2) { if (usable(s[k])) fill(s[k]); e.f("wrote", usable(s[k]) ? hash(s[k].p, n) : "outside"); }
        tr::emit(e);
    }
};
static void replay(const Hist& h, u64 seed, size_t total)
{
    tr::emit(tr::Ev("heap").f("total", total));
    Runner r(seed, total);
    for (auto& o : h) r.op(o);
}
static void random_run(u64 seed, bool thorough)
{
    tr::Rng g(seed);
    size_t total = g.chance(1, 3) ? 4096 : g.chance(1, 2) ? 20000 + g.below(100) : 300 + g.below(2000);
    tr::emit(tr::Ev("heap").f("total", total));
    Runner r(seed + 1, total);
    int slots = 2 + g.below(12);
    size_t mx = 1 + g.below(total / 3);
    for (int i = 0, n = thorough ? 400 : 150; i < n; ++i) {
        int k = 1 + g.below(slots);
        size_t z = g.chance(1, 2) ? g.below(mx) : g.chance(1, 2) ? 8 * g.below(mx / 8 + 1) : g.below(64);
        if (i % 50 == 49) { for (int q = 0; q < slots; ++q) r.op({3, 1 + (q * 7 + (i / 50)) % slots, 0}); for (int q = 1; q <= slots; ++q) r.op({3, q, 0}); continue; }
        if (i % 50 == 0) { r.op({1, 1, (long)(mx * 2)}); r.op({3, 1, 0}); continue; }
        r.op({g.chance(2, 5) ? 1 : g.chance(2, 3) ? 3 : 2, k, (long)z});
    }
}
// the library's objects give the same answers when their memory comes from large pages
template<class T, class K> static void object(const std::string& name, bool huge, tr::Ev& e)
{
    T a, b;
    FP f;
    for (int v = 4; v >= 1; --v) { K::make(a, v); K::fp(a, f); b = a; K::fp(b, f); T c(std::move(b)); b = std::move(c); K::fp(b, f); }
    std::stringstream o;
    a.serialize(o);
    b.load(o);
    K::fp(b, f);
    e.f(name.c_str(), f.str());
    (void)huge;
}
static std::string objects(const char* when)
{
    tr::Ev e("objects");
    object<int_vector<>, Vec<int_vector<>>>("int_vector", false, e);
    object<int_vector<1>, Vec<int_vector<1>>>("bit_vector", false, e);
    object<enc_vector<>, Civ<enc_vector<>>>("enc_vector", false, e);
    object<wt_huff<>, Wt<wt_huff<>>>("wt_huff", false, e);
    object<wt_int<>, Wt<wt_int<>>>("wt_int", false, e);
    object<csa_wt<>, Csa<csa_wt<>>>("csa_wt", false, e);
    (void)when;
    return e.str();
}
static void in_pages()
{
    int_vector<> before(1000, 5, 7);
    tr::emit(tr::Ev("stage").f("what", "plain"));
    objects("plain");
    std::string a = objects("plain");
    memory_manager::use_hugepages(64 << 20);
    std::string b = objects("pages");
    before.resize(3000);
    bool same = true;
    for (size_t i = 0; i < 1000; ++i) same = same && before[i] == 5;
    int_vector<> inside(500, 3, 9);
    bool in = (unsigned char*)inside.data() >= area && (unsigned char*)inside.data() < area + area_len;
    tr::emit(tr::Ev("objects").f("plain", a).f("pages", b).f("kept", same).f("inside", in));
}
static void reg()
{
    auto hs = hists();
    for (size_t i = 0; i < hs.size(); i += 10)
        tr::job("heap/" + std::to_string(i), [=] { for (size_t k = i; k < std::min(i + 10, hs.size()); ++k) { replay(hs[k], tr::seed * 1000 + k, 6000); replay(hs[k], tr::seed * 1000 + k, 2600 + 8 * (k % 50)); } }, 120);
    for (int i = 0; i < (tr::thorough ? 200 : 40); ++i)
        tr::job("random/" + std::to_string(i), [=] { for (int z = 0; z < 5; ++z) random_run(tr::seed * 7919 + i * 5 + z, tr::thorough); }, 120);
    tr::job("objects", in_pages, 120);
}
TR_REGISTER(reg);
