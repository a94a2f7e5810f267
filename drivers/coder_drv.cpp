// C06 (codes): codeword bits, announced lengths, decoding from any codeword, prefix sums.
#include "tr.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/coder.hpp>
using namespace sdsl;
typedef uint64_t u64;
typedef std::vector<u64> vec;

static u64 fib(unsigned k) { return bits::lt_fib[k]; }
static u64 mag(tr::Rng& g) {
    switch (g.below(9)) {
        case 0: return g.below(4);
        case 1: return 1ULL << g.below(64);
        case 2: return (1ULL << g.below(64)) - 1;
        case 3: return (1ULL << g.below(64)) + 1;
        case 4: return fib(g.below(92)) - g.below(2);
        case 5: return fib(g.below(92)) + g.below(2);
        case 6: return ~0ULL - g.below(3);
        case 7: return g.next();
        default: return g.next() >> g.below(64);
    }
}
enum { SMALL, ONES, POW, FIBS, MIX, TINYRUN, ZEROS, LONG, RUNS, NKIND };
static vec values(int kind, u64 n, tr::Rng& g) {
    vec v(n);
    for (u64 i = 0; i < n; ++i) switch (kind) {
        case SMALL: v[i] = 1 + g.below(20); break;
        case ONES: v[i] = g.chance(1, 25) ? mag(g) : 1; break;
        case POW: v[i] = (1ULL << g.below(g.chance(1, 2) ? 10 : 64)) - g.below(2); break;
        case FIBS: v[i] = fib(g.below(g.chance(1, 2) ? 12 : 92)); break;
        case MIX: v[i] = g.chance(1, 2) ? g.below(9) : mag(g); break;
        case TINYRUN: v[i] = g.chance(1, 10) ? 1 + g.below(300) : 1 + g.below(3); break;
        case ZEROS: v[i] = g.chance(1, 3) ? 0 : g.below(4); break;
        case RUNS: v[i] = i % 300 == 299 ? (g.chance(1, 2) ? mag(g) : g.below(3)) : 1; break;    // whole words of ones
        default: v[i] = mag(g); break;
    }
    return v;
}
template<class C> struct W { enum { v = 0 }; };
template<uint8_t w> struct W<coder::comma<w>> { enum { v = w }; };

static std::vector<u64> kq, nq;   // (first codeword, number of codewords)

struct Shared { tr::Group sum{"sum"}, dec{"dec"}; };

template<class C>
void run(const char* name, const char* code, const vec& v, u64 off, tr::Rng& g, Shared& S)
{
    u64 total = off;
    std::vector<int> lens;
    for (u64 x : v) { lens.push_back(C::encoding_length(x)); total += C::encoding_length(x); }
    std::vector<u64> buf(total / 64 + 30);
    for (auto& w : buf) w = g.next();             // what surrounds the codewords is arbitrary
    u64* z = buf.data() + (off >> 6);
    uint8_t o = off & 63;
    std::vector<u64> start;
    std::string bitsj = "[";
    for (u64 i = 0; i < v.size(); ++i) {
        u64 a = (z - buf.data()) * 64 + o;
        start.push_back(a);
        C::encode(v[i], z, o);
        u64 b = (z - buf.data()) * 64 + o;
        bitsj += i ? ",[" : "[";
        for (u64 p = a; p < b && p < a + 200; ++p) { if (p > a) bitsj += ','; bitsj += ((buf[p >> 6] >> (p & 63)) & 1) ? '1' : '0'; }
        bitsj += "]";
    }
    start.push_back((z - buf.data()) * 64 + o);
    tr::emit(tr::Ev("enc").f("impl", name).f("code", code).f("w", (int)W<C>::v).f("lens", lens).f("bits", tr::J{bitsj + "]"}));
    std::string a = "[", b = "[", c = "[", d = "[";
    for (u64 q = 0; q < kq.size(); ++q) {
        if (q) { a += ','; b += ','; c += ','; d += ','; }
        u64 k = kq[q], n = nq[q];
        a += tr::limbs64(C::decode_prefix_sum(buf.data(), start[k], n)).s;
        b += tr::limbs64(C::decode_prefix_sum(buf.data(), start[k], start[k + n], n)).s;
        c += tr::limbs64(C::template decode<true, false, int*>(buf.data(), start[k], n)).s;
        vec one(n + 1, 77), cum(n + 1, 77);
        u64 r = C::template decode<false, true>(buf.data(), start[k], n, one.begin());
        u64 r2 = C::template decode<false, false, int*>(buf.data(), start[k], n);
        u64 r3 = C::template decode<true, true>(buf.data(), start[k], n, cum.begin());
        one.pop_back(); cum.pop_back();
        d += "[" + tr::limbvec(one).s + "," + tr::limbvec(cum).s + "," + tr::limbs64(n ? r : 0).s + "," + tr::limbs64(n ? r2 : 0).s + "," + tr::limbs64(r3).s + "]";
    }
    S.sum.addj(std::string(name) + ".prefix_sum", a + "]");
    S.sum.addj(std::string(name) + ".prefix_sum_end", b + "]");
    S.sum.addj(std::string(name) + ".decode_sum", c + "]");
    S.dec.addj(name, d + "]");
}
// whole vectors
template<class C>
void whole(const char* name, const vec& v, unsigned width, tr::Group& G)
{
    int_vector<> a(v.size(), 0, width), z, b(3, 0, 7);
    for (u64 i = 0; i < v.size(); ++i) a[i] = v[i];
    bool e = C::encode(a, z);
    bool d = C::decode(z, b);
    (void)e; (void)d;
    vec r(b.begin(), b.end());
    G.addj(name, "[" + tr::jv((u64)b.width()) + "," + tr::limbvec(r).s + "]");
}
#define EACH(M) M(coder::elias_delta, "delta") M(coder::elias_gamma, "gamma") M(coder::fibonacci, "fibonacci") \
    M(coder::comma<2>, "comma") M(coder::comma<3>, "comma") M(coder::comma<4>, "comma") M(coder::comma<5>, "comma") M(coder::comma<7>, "comma") \
    M(coder::comma<8>, "comma") M(coder::comma<13>, "comma") M(coder::comma<16>, "comma") M(coder::comma<24>, "comma") M(coder::comma<31>, "comma") M(coder::comma<32>, "comma")

static void one(int kind, u64 n, u64 seed)
{
    tr::Rng g(seed);
    for (unsigned rep = 0; rep < (tr::thorough ? 12 : 2); ++rep) {
        vec v = values(kind, n, g), ps(1, 0);
        for (u64 x : v) ps.push_back(ps.back() + x);
        tr::emit(tr::Ev("case").f("kind", "code").f("n", n).f("v", tr::limbvec(v)).f("ps", tr::limbvec(ps)));
        kq.clear(); nq.clear();
        if (n <= 14) { for (u64 k = 0; k <= n; ++k) for (u64 m = 0; k + m <= n; ++m) { kq.push_back(k); nq.push_back(m); } }
        else for (int t = 0; t < 60; ++t) { u64 k = t < 4 ? t : g.below(n + 1); kq.push_back(k); nq.push_back(t % 4 ? g.below(n - k + 1) : n - k); }
        // an end at the last codeword needs start[n]; a start at n is a request for no codeword
        Shared S;
        S.sum.arg("k", kq).arg("n", nq); S.dec.arg("k", kq).arg("n", nq);
        u64 off = g.below(130);
#define M(T, N) run<T>(#T, N, v, off + g.below(64), g, S);
        EACH(M)
#undef M
        S.sum.done(); S.dec.done();
        unsigned width = 1 + g.below(64);
        if (g.chance(1, 5)) width = 64;
        vec t(v);
        for (u64& x : t) x &= bits::lo_set[width];
        tr::Group G("whole");
        G.arg("width", width).arg("v", tr::limbvec(t));
#define M(T, N) whole<T>(#T, t, width, G);
        EACH(M)
#undef M
        G.done();
    }
}
static void reg()
{
    u64 s = tr::seed * 4049;
    for (int k = 0; k < NKIND; ++k) for (u64 n : {1, 2, 3, 9, 14, 40, 70})
        tr::job("code/" + std::to_string(k) + "/" + std::to_string(n), [=] { one(k, n, s + k * 1000 + n); });
    tr::job("code/long", [=] { one(TINYRUN, 400, s + 1); one(ONES, 500, s + 2); one(SMALL, 400, s + 3); one(RUNS, 700, s + 4); one(LONG, 200, s + 5); });
}
TR_REGISTER(reg);
