// Type-erased access to every bitvector representation with its rank and select structures.
#ifndef VERIF_BV_IMPL_HPP
#define VERIF_BV_IMPL_HPP
#include "tr.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/rank_support.hpp>
#include <sdsl/select_support.hpp>
#include <memory>
#include <sstream>

namespace bvi {
typedef uint64_t u64;
enum Pat { P1, P0, P10, P01, P00, P11, NPAT };
static const char* const patname[NPAT] = {"1", "0", "10", "01", "00", "11"};

struct Obj {
    virtual ~Obj() {}
    virtual u64 size() const = 0;
    virtual u64 at(u64 i) const = 0;
    virtual bool has_int() const { return false; }
    virtual u64 get_int(u64, unsigned) const { return 0; }
    virtual bool has_iter() const { return false; }
    virtual std::vector<int> iter() const { return {}; }
    virtual bool has_rank(int) const { return false; }
    virtual u64 rank(int, u64) const { return 0; }
    virtual bool has_select(int) const { return false; }
    virtual u64 select(int, u64) const { return 0; }
};
// how the object under test came to be: 0 built, 1 copied (source destroyed), 2 moved,
// 3 copy-assigned over another object, 4 move-assigned over another object, 5 swapped, 6 stored and loaded
enum { MODES = 7 };
typedef std::function<std::unique_ptr<Obj>(const sdsl::bit_vector&, int mode)> Maker;
struct Impl { std::string name; Maker make; u64 maxn; };
std::vector<Impl>& impls();
inline void add(const std::string& n, Maker m, u64 maxn = ~0ULL) { impls().push_back(Impl{n, m, maxn}); }

inline sdsl::bit_vector other_bv() {   // some unrelated content for assignment targets
    sdsl::bit_vector b(777, 0);
    for (unsigned i = 0; i < 777; i += 3) b[i] = 1;
    return b;
}

// attach support s (of a copy of S) to vector v after the vector arrived by `mode`
template<class BV, class S>
void attach(S& dst, const BV* src_v, const BV* v, const BV* oth, int mode) {
    S s(src_v);
    switch (mode) {
        case 1: { S c(s); dst = c; dst.set_vector(v); break; }
        case 2: { S c(std::move(s)); dst = std::move(c); dst.set_vector(v); break; }
        case 3: { dst = S(oth); dst = s; dst.set_vector(v); break; }
        case 4: { S o(oth); o = std::move(s); dst = std::move(o); dst.set_vector(v); break; }
        case 5: { S o(oth); s.swap(o); s.set_vector(oth); dst = o; dst.set_vector(v); break; }
        case 6: { std::stringstream ss; s.serialize(ss); dst.load(ss, v); break; }
        default: { S c(v); dst.swap(c); dst.set_vector(v); break; }
    }
}
template<class BV>
std::unique_ptr<BV> arrive(std::unique_ptr<BV>& src, BV& oth, int mode) {
    switch (mode) {
        case 1: return std::unique_ptr<BV>(new BV(*src));
        case 2: { std::unique_ptr<BV> c(new BV(*src)); return std::unique_ptr<BV>(new BV(std::move(*c))); }
        case 3: { std::unique_ptr<BV> c(new BV(oth)); *c = *src; return c; }
        case 4: { std::unique_ptr<BV> d(new BV(*src)); std::unique_ptr<BV> c(new BV(oth)); *c = std::move(*d); return c; }
        case 5: { std::unique_ptr<BV> d(new BV(*src)); std::unique_ptr<BV> c(new BV(oth)); c->swap(*d); return c; }
        case 6: { std::stringstream ss; src->serialize(ss); std::unique_ptr<BV> c(new BV()); c->load(ss); return c; }
        default: return std::unique_ptr<BV>(new BV(*src));
    }
}

// a compressed representation with its own rank/select for 1 and 0
template<class BV>
auto do_int(const BV& b, u64 i, unsigned l, int) -> decltype((u64)b.get_int(i, l)) { return b.get_int(i, l); }
template<class BV>
u64 do_int(const BV&, u64, unsigned, long) { return 0; }
template<class BV>
auto has_int_(const BV& b, int) -> decltype(b.get_int(0, 1), true) { return true; }
template<class BV>
bool has_int_(const BV&, long) { return false; }
template<class BV>
auto do_iter(const BV& b, int) -> decltype(b.begin(), std::vector<int>()) {
    std::vector<int> r;
    for (auto it = b.begin(); it != b.end(); ++it) r.push_back((int)(u64)*it);
    return r;
}
template<class BV>
std::vector<int> do_iter(const BV&, long) { return {-1}; }

template<class BV, bool RANK, bool SEL, class R1, class R0, class S1, class S0>
struct CObj : Obj {
    std::unique_ptr<BV> b;
    R1 r1; R0 r0; S1 s1; S0 s0;
    CObj(std::unique_ptr<BV> src, int mode) {
        BV oth(other_bv());
        b = mode ? arrive(src, oth, mode) : std::move(src);
        const BV* sv = mode ? src.get() : b.get();
        if (RANK) { attach(r1, sv, (const BV*)b.get(), (const BV*)&oth, mode); attach(r0, sv, (const BV*)b.get(), (const BV*)&oth, mode); }
        if (SEL) { attach(s1, sv, (const BV*)b.get(), (const BV*)&oth, mode); attach(s0, sv, (const BV*)b.get(), (const BV*)&oth, mode); }
    }
    u64 size() const override { return b->size(); }
    u64 at(u64 i) const override { return (u64)(*b)[i]; }
    bool has_int() const override { return has_int_(*b, 0); }
    u64 get_int(u64 i, unsigned l) const override { return do_int(*b, i, l, 0); }
    bool has_iter() const override { return true; }
    std::vector<int> iter() const override { return do_iter(*b, 0); }
    bool has_rank(int p) const override { return RANK && (p == P1 || p == P0); }
    u64 rank(int p, u64 i) const override { return p == P1 ? r1.rank(i) : r0(i); }
    bool has_select(int p) const override { return SEL && (p == P1 || p == P0); }
    u64 select(int p, u64 i) const override { return p == P1 ? s1.select(i) : s0(i); }
};
struct NoSup {
    template<class V> explicit NoSup(const V*) {}
    NoSup() {}
    u64 rank(u64) const { return 0; }
    u64 select(u64) const { return 0; }
    u64 operator()(u64) const { return 0; }
    void swap(NoSup&) {}
    template<class V> void set_vector(const V*) {}
    template<class V> void load(std::istream&, const V*) {}
    void serialize(std::ostream&) {}
};
template<class BV, bool RANK = true, bool SEL = true>
void add_bv(const std::string& name, u64 maxn = ~0ULL) {
    typedef CObj<BV, RANK, SEL, typename std::conditional<RANK, typename BV::rank_1_type, NoSup>::type, typename std::conditional<RANK, typename BV::rank_0_type, NoSup>::type,
            typename std::conditional<SEL, typename BV::select_1_type, NoSup>::type, typename std::conditional<SEL, typename BV::select_0_type, NoSup>::type> O;
    add(name, [](const sdsl::bit_vector& bv, int mode) { return std::unique_ptr<Obj>(new O(std::unique_ptr<BV>(new BV(bv)), mode)); }, maxn);
}
template<class BV, bool RANK, bool SEL>
using cobj_t = CObj<BV, RANK, SEL, typename std::conditional<RANK, typename BV::rank_1_type, NoSup>::type, typename std::conditional<RANK, typename BV::rank_0_type, NoSup>::type,
      typename std::conditional<SEL, typename BV::select_1_type, NoSup>::type, typename std::conditional<SEL, typename BV::select_0_type, NoSup>::type>;

// plain bitvector with one rank support for one pattern
template<class S, bool RANK>
struct PObj : Obj {
    std::unique_ptr<sdsl::bit_vector> b;
    S s;
    int pat;
    PObj(const sdsl::bit_vector& bv, int mode, int p) : pat(p) {
        std::unique_ptr<sdsl::bit_vector> src(new sdsl::bit_vector(bv));
        sdsl::bit_vector oth(other_bv());
        b = mode ? arrive(src, oth, mode) : std::move(src);
        const sdsl::bit_vector* sv = mode ? src.get() : b.get();
        attach(s, sv, (const sdsl::bit_vector*)b.get(), (const sdsl::bit_vector*)&oth, mode);
    }
    u64 size() const override { return b->size(); }
    u64 at(u64 i) const override { return (*b)[i]; }
    bool has_rank(int p) const override { return RANK && p == pat; }
    bool has_select(int p) const override { return !RANK && p == pat; }
    u64 rank(int, u64 i) const override { return q(i, std::integral_constant<bool, RANK>()); }
    u64 select(int, u64 i) const override { return q(i, std::integral_constant<bool, RANK>()); }
    u64 q(u64 i, std::true_type) const { return i & 1 ? s.rank(i) : s(i); }
    u64 q(u64 i, std::false_type) const { return i & 1 ? s.select(i) : s(i); }
};
template<class S, bool RANK>
void add_sup(const std::string& name, int pat, u64 maxn = ~0ULL) {
    add(name, [pat](const sdsl::bit_vector& bv, int mode) { return std::unique_ptr<Obj>(new PObj<S, RANK>(bv, mode, pat)); }, maxn);
}
} // namespace bvi
#endif
